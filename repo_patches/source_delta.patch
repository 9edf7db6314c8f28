From 490ffa8d6ab37d6af35c800cc3a33fa11097ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:00 +0000
Subject: [PATCH 01/33] fix: accept well-formed host keys when parsing
 KEXECDH_REPLY

Key::parse checked the data before the blob for emptiness, so every
reply with a key was rejected. KeyBlob::parse already refuses trailing bytes.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..fd95e53 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -79,7 +79,7 @@ impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From 3d219d1c1b1454b6b28545c34329eba64e92aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:55 +0000
Subject: [PATCH 02/33] fix: refuse plain packets that do not fit the buffer
 instead of panicking

The length field does not count itself, so lengths in (len - 4, len] of the
buffer sliced out of bounds.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From 3df77e23d320de9eb0d4847f32e4bb1e8cf62514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:55 +0000
Subject: [PATCH 03/33] fix: find the identification line after blank, short or
 CR-terminated lines

"SSSH-" was taken for "SSH-", and a line consisting of nothing, "S", "SS" or
"SSH", or ending in more than one CR, hid the line after it.
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..ad74def 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,10 +30,9 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
+			(_, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
 			_ => State::Ignore,
 		};
-- 
2.43.0


From 5b4f9769b25a0274f6f45abb18f6181d61f8765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:55 +0000
Subject: [PATCH 04/33] fix: refuse malformed key exchange messages instead of
 panicking

---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..662610d 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::BadClientKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -294,6 +295,8 @@ pub enum HandleNewClientError {
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
 	UnsupportedAlgorithms,
+	ExpectedKeyExchangeEcdhInit,
+	BadClientKey,
 	ExpectedKeys,
 	#[allow(dead_code)]
 	Read(io::Error), // FIXME how come this is unused?
-- 
2.43.0


From 5467eae3c9c58fd614d8f544dabc47fc74352296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:55 +0000
Subject: [PATCH 05/33] fix: abort the key exchange if the shared secret is all
 zero

RFC 8731 section 3 demands it: a client key of small order makes the secret
known to everyone.
---
 nora_ssh/src/host.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 662610d..10ec0a6 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -221,6 +221,10 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		// RFC 8731 section 3: abort if the shared secret is all zero.
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::BadClientKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From e25205d884234768f88753a2300b7ed19138e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:40 +0000
Subject: [PATCH 06/33] fix: ignore the packet a client sent for a wrongly
 guessed key exchange

RFC 4253 section 7; the packet still counts as a received packet.
---
 nora_ssh/src/host.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 10ec0a6..3c32835 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -187,11 +187,24 @@ impl Host<p256::NistP256> {
 		{
 			return Err(HandleNewClientError::UnsupportedAlgorithms);
 		}
+		// RFC 4253 section 7: a packet sent for a wrong guess is ignored. It
+		// is wrong if the preferred algorithms of client and server differ.
+		let ignore_packet = msg.first_kex_packet_follows
+			&& !(msg.kex_algorithms.iter().next().map(|s| s.as_bytes())
+				== Some(b"curve25519-sha256")
+				&& msg.server_host_key_algorithms.iter().next().map(|s| s.as_bytes())
+					== Some(self.host_key.name().as_bytes()));
 
 		// Generate temporary key for exchanging the secret
 		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);
 		let server_ephermal_public = x25519_dalek::PublicKey::from(&server_ephermal_secret);
 
+		if ignore_packet {
+			packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
+				.await
+				.map_err(HandleNewClientError::PacketParseError)?;
+		}
+
 		// Receive the client's temporary key
 		let pkt = packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
 			.await
@@ -260,7 +273,7 @@ impl Host<p256::NistP256> {
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ClientToServer,
-			3,
+			3 + u64::from(ignore_packet),
 		));
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
-- 
2.43.0


From 7781854dbd3706c052c283fc0c3b57ec0808bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:57 +0000
Subject: [PATCH 07/33] fix: end or refuse instead of panicking during
 authentication

A client could end the whole server with a malformed, unexpected or unsupported
message, by disconnecting early, or by offering a key of over 200 bytes.
---
 nora_ssh/src/server.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..402dded 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,12 +98,13 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		let mut pkt_buf_mini = Vec::new();
+		pkt_buf_mini.resize(pkt_buf.len(), 0);
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
@@ -115,9 +116,9 @@ where
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -126,10 +127,10 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -160,7 +161,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -189,18 +190,20 @@ where
 						ua.service,
 						algorithm,
 						key_blob,
-					)
-					.unwrap_or_else(|| todo!());
+					);
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					message.map(|message| Auth::PublicKey { algorithm, signature, key, message })
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
+				Method::Password { password } => Some(Auth::Password(password)),
+				// Not supported
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let result = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match result {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
@@ -212,7 +215,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +237,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From 97cd7ac46fb884f9b3211e5387b31c8f40f2a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:59 +0000
Subject: [PATCH 08/33] fix: do not lose wakeups in LocalMutex

A waiter that was woken but found the lock taken again never registered again,
and waking one waiter could pick a future that no longer exists.
---
 nora_ssh/src/sync.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..2e92886 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,7 +17,7 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
@@ -26,30 +26,25 @@ impl<T> LocalMutex<T> {
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	/// Wake every waiter. Waking just one can wake a future that was dropped, or one
+	/// that finds the lock taken again, and the others would then sleep forever.
+	fn wake_all(&self) {
+		self.queue.take().into_iter().for_each(Waker::wake)
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +72,6 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		self.inner.wake_all();
 	}
 }
-- 
2.43.0


From 4b020b2db01e568ce1dc51609148cafe33b3aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:29 +0000
Subject: [PATCH 09/33] fix: answer or end instead of panicking after
 authentication

Unsupported channel requests get a failure, unknown messages UNIMPLEMENTED, and
protocol violations end the connection; before, any of them ended the server.
---
 nora_ssh/src/host.rs   |  23 ++++--
 nora_ssh/src/server.rs | 173 ++++++++++++++++++++---------------------
 2 files changed, 103 insertions(+), 93 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3c32835..061b838 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -270,11 +270,15 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::Write)?;
 
-		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
-			&key_material,
-			Direction::ClientToServer,
-			3 + u64::from(ignore_packet),
-		));
+		let receive_sequence = 3 + u32::from(ignore_packet);
+		let receive_cipher = In(
+			ChaCha20Poly1305::from_key_material(
+				&key_material,
+				Direction::ClientToServer,
+				receive_sequence.into(),
+			),
+			receive_sequence,
+		);
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ServerToClient,
@@ -353,9 +357,15 @@ pub enum OutError {
 	Write(io::Error),
 }
 
-pub struct In<D: Cipher>(D);
+/// The cipher and the sequence number of the next packet.
+pub struct In<D: Cipher>(D, u32);
 
 impl<D: Cipher> In<D> {
+	/// The sequence number of the last packet received.
+	pub fn last_sequence_number(&self) -> u32 {
+		self.1.wrapping_sub(1)
+	}
+
 	pub async fn recv<'s, 'a: 's, 'b: 's, Io>(
 		&'s mut self,
 		buf: &'a mut [u8],
@@ -377,6 +387,7 @@ impl<D: Cipher> In<D> {
 		io.read_exact(data).await.map_err(InError::Read)?;
 		let data = &mut buf[..4 + len + self.0.tag_size()];
 		self.0.decrypt_data(data).map_err(InError::Cipher)?;
+		self.1 = self.1.wrapping_add(1);
 		data[..4].copy_from_slice(&lenb);
 		Packet::wrap_raw(buf, false, self.0.block_size())
 			.map_err(InError::Packet)
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 402dded..2efbb5f 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -19,7 +19,7 @@ use nora_ssh_core::{
 	cipher::{ChaCha20Poly1305, Cipher},
 	data,
 	identifier::Identifier,
-	message::{self as msg, channel::session::SessionRequest, Message},
+	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
@@ -299,7 +299,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Treat a broken pipe as its end.
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -363,12 +364,31 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			let msg = match Message::parse(data) {
+				Ok(msg) => msg,
+				Err(
+					MessageParseError::UnknownMessageType(_)
+					| MessageParseError::UserAuth(msg::userauth::ParseError::UnknownMessageType(_))
+					| MessageParseError::Channel(msg::channel::ParseError::UnknownMessageType(_)),
+				) => {
+					// RFC 4253 section 11.4
+					let msg = Message::Unimplemented(msg::Unimplemented {
+						sequence_number: enc.last_sequence_number(),
+					});
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+					continue;
+				}
+				Err(e) => return Err(ReceiveError::Message(e)),
+			};
+			match msg {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session, // TODO actually check
 						stdin: None,
+						started: false,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
@@ -385,74 +405,39 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(r.recipient_channel))?;
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
+					let ty = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
+						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
+						// Not supported or malformed
+						_ => None,
 					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
-								.handlers
-								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
-								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
-						}
-						SessionRequest::Exec { command } => {
-							let io = server
-								.handlers
-								.spawn(
-									&mut *self.user.borrow_mut(),
-									SpawnType::Exec { command },
-									&[],
-								)
-								.await
-								.unwrap();
+					let io = match ty {
+						// RFC 4254 section 6.5: only one program per channel
+						Some(ty) if !ch.started => server
+							.handlers
+							.spawn(&mut *self.user.borrow_mut(), ty, &[])
+							.await
+							.ok(),
+						_ => None,
+					};
+					let channel = ch.peer_channel;
+					let msg = Message::Channel(if io.is_some() {
+						msg::Channel::Success(msg::channel::Success { recipient_channel: channel })
+					} else {
+						msg::Channel::Failure(msg::channel::Failure { recipient_channel: channel })
+					});
+					let (stdout, stderr, wait) = match io {
+						Some(io) => {
+							ch.started = true;
 							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
+							(io.stdout, io.stderr, Some(io.wait))
 						}
-						SessionRequest::Pty { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
+						None => (None, None, None),
 					};
-					let channel = ch.peer_channel;
 					drop(channels);
 					if r.want_reply {
 						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
@@ -473,39 +458,48 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(d.recipient_channel))?;
+					// Discard the data if the program doesn't want it (anymore).
+					if let Some(stdin) = ch.stdin.as_mut() {
+						if stdin.write(d.data).await.is_err() {
+							ch.stdin.take();
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
+				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				// FIXME the window is not taken into account when sending
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
-				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) => {}
+				// RFC 4252 section 5.3: silently ignore further requests
+				Message::UserAuth(msg::UserAuth::Request(_)) => {}
+				// Not supported (rekeying) or never asked for
+				Message::Channel(
+					msg::Channel::OpenConfirmation(_)
+					| msg::Channel::OpenFailure(_)
+					| msg::Channel::Success(_)
+					| msg::Channel::Failure(_),
+				)
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_)
+				| Message::UserAuth(_) => return Err(ReceiveError::UnexpectedMessage),
 			}
 		}
 	}
@@ -533,6 +527,8 @@ where
 	#[allow(dead_code)]
 	ty: ChannelType,
 	stdin: Option<Stdin>,
+	/// Whether a program was started.
+	started: bool,
 }
 
 pub struct IoSet<Stdin, Stdout, Stderr>
@@ -561,6 +557,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(MessageParseError),
+	UnexpectedMessage,
+	UnknownChannel(u32),
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From bd0346d99f4e5c5f6e928d765b16f76f0ed30469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:30 +0000
Subject: [PATCH 10/33] fix: pass all data of a packet to the program

write() may take only a part of it; the rest was lost.
---
 nora_ssh/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 2efbb5f..8b202fc 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -463,7 +463,7 @@ where
 						.ok_or(ReceiveError::UnknownChannel(d.recipient_channel))?;
 					// Discard the data if the program doesn't want it (anymore).
 					if let Some(stdin) = ch.stdin.as_mut() {
-						if stdin.write(d.data).await.is_err() {
+						if stdin.write_all(d.data).await.is_err() {
 							ch.stdin.take();
 						}
 					}
-- 
2.43.0


From 156372480de71f6c6c4caeafc6f6a1a95fcf60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:31 +0000
Subject: [PATCH 11/33] fix: refuse to open channels of other types than
 session

---
 nora_ssh/src/server.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 8b202fc..c009da6 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -383,10 +383,23 @@ where
 				Err(e) => return Err(ReceiveError::Message(e)),
 			};
 			match msg {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					let msg = Message::Channel(msg::Channel::OpenFailure(
+						msg::channel::OpenFailure {
+							recipient_channel: o.sender_channel,
+							reason: msg::channel::OpenFailureReason::UnknownChannelType,
+							description: "",
+							language: b"",
+						},
+					));
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
 						stdin: None,
 						started: false,
 					});
-- 
2.43.0


From f503e4ab0be220b818a737f5dbb9aa227a631f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:23 +0000
Subject: [PATCH 12/33] fix: keep packets and channels intact while programs
 produce output

Output of a program interrupted a half received packet or a half sent reply and
lost that part, after which the connection was unusable. Output, exit status and
close were sent in any order, even after the peer closed the channel (and maybe
reused its number), and a close by the peer was not answered.
---
 nora_ssh/src/server.rs | 199 +++++++++++++++++++++++++----------------
 1 file changed, 122 insertions(+), 77 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index c009da6..e85cd3a 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -4,15 +4,19 @@ use crate::{
 	host::{self, Host, HostKey, InError, OutError, SignKey},
 	sync::LocalMutex,
 };
-use core::{cell::RefCell, future::Future, pin::Pin};
+use core::{
+	cell::{Cell, RefCell},
+	future::Future,
+	pin::Pin,
+};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
 	ops::{Invert, Reduce},
 	Curve, Scalar,
 };
 use futures::{
-	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
-	FutureExt, StreamExt,
+	io, pin_mut, select, stream::FuturesUnordered, try_join, AsyncRead, AsyncReadExt, AsyncWrite,
+	AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -22,6 +26,7 @@ use nora_ssh_core::{
 	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
+use std::rc::Rc;
 use subtle::CtOption;
 
 pub struct Server<Handlers>
@@ -217,7 +222,7 @@ where
 						.await
 						.map_err(|_| ())?;
 					return Ok(Client {
-						read: RefCell::new((rd, rd_enc)),
+						read: RefCell::new((rd, rd_enc, pkt_buf)),
 						write: LocalMutex::new((wr, wr_enc)),
 						user: RefCell::new(user),
 						channels: RefCell::new(Arena::new()),
@@ -252,7 +257,7 @@ where
 		+ SignPrimitive<Handlers::Sign>,
 	SignatureSize<Handlers::Sign>: ArrayLength<u8>,
 {
-	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>)>,
+	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>, Vec<u8>)>,
 	write: LocalMutex<(Handlers::Write, host::Out<Handlers::Crypt>)>,
 	user: RefCell<Handlers::User>,
 	channels: RefCell<Arena<Channel<Handlers::Stdin>>>,
@@ -276,92 +281,130 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
+	/// Send a message for a channel, unless the channel got closed in the meantime.
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
+		closed: &Cell<bool>,
+		msg: msg::Channel<'_>,
+	) -> Result<(), OutError> {
+		let mut l = self.write.lock().await;
+		if closed.get() {
+			return Ok(());
+		}
+		let (wr, enc) = &mut *l;
+		let msg = Message::Channel(msg);
+		enc.send(
+			buf,
+			|buf| msg.serialize(buf).unwrap().0.len(),
+			wr,
+			&mut *self.rng.borrow_mut(),
+		)
+		.await
+	}
+
+	async fn send_close(
+		&self,
+		buf: &mut [u8],
+		closed: &Cell<bool>,
 		channel: u32,
-		data: &[u8],
 	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
+		if closed.replace(true) {
+			return Ok(());
+		}
+		let msg = Message::Channel(msg::Channel::Close(msg::channel::Close {
 			recipient_channel: channel,
-			data,
 		}));
 		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
 			.await
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
-		let mut stdout_inputs = FuturesUnordered::new();
-		let mut stderr_inputs = FuturesUnordered::new();
-		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
-			let mut buf = [0; 256];
-			// Treat a broken pipe as its end.
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
-		}
-		let mut buf = Vec::new();
-		buf.resize(35000, 0);
+		let mut sessions = FuturesUnordered::new();
+		// This future may be in the middle of a packet, so keep it until it is done.
+		let receive = self.receive(server).fuse();
+		pin_mut!(receive);
 		loop {
 			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
-					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
-						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
-					}
-					Err(e) => return Err(e),
-				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
+				ret = receive => match ret? {
+					Action::Exit => return Ok(()),
+					Action::NewIo { stdout, stderr, wait, channel, closed } => {
+						sessions.push(self.run_session(stdout, stderr, wait, channel, closed));
+						receive.set(self.receive(server).fuse());
 					}
 				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(status, channel) = wait_exit.select_next_some() => {
-					let mut data = [0; 256];
-					let (ty, l) = SessionRequest::ExitStatus {
-						status,
-					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
-						ty,
-						data: &data[..l],
-						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-				}
+				ret = sessions.select_next_some() => ret.map_err(ReceiveError::Out)?,
 			}
 		}
 	}
 
+	/// Pass on the output and the exit status of a program, then close the channel.
+	async fn run_session(
+		&self,
+		stdout: Option<Handlers::Stdout>,
+		stderr: Option<Handlers::Stderr>,
+		wait: Pin<Box<dyn Future<Output = u32>>>,
+		channel: u32,
+		closed: Rc<Cell<bool>>,
+	) -> Result<(), OutError> {
+		let output = async {
+			try_join!(
+				self.forward(stdout, channel, &closed),
+				self.forward(stderr, channel, &closed)
+			)?;
+			let msg = msg::Channel::Eof(msg::channel::Eof { recipient_channel: channel });
+			self.send_channel(&mut [0; 256], &closed, msg).await
+		};
+		let status = async {
+			let mut data = [0; 256];
+			let (ty, l) = SessionRequest::ExitStatus { status: wait.await }
+				.serialize(&mut data)
+				.unwrap();
+			let msg = msg::Channel::Request(msg::channel::Request {
+				recipient_channel: channel,
+				ty,
+				data: &data[..l],
+				want_reply: false,
+			});
+			self.send_channel(&mut [0; 256], &closed, msg).await
+		};
+		try_join!(output, status)?;
+		self.send_close(&mut [0; 256], &closed, channel).await
+	}
+
+	/// Pass on everything a program writes to a pipe.
+	async fn forward<Io: AsyncRead + Unpin>(
+		&self,
+		io: Option<Io>,
+		channel: u32,
+		closed: &Cell<bool>,
+	) -> Result<(), OutError> {
+		let mut io = match io {
+			Some(io) => io,
+			None => return Ok(()),
+		};
+		let (mut data, mut buf) = ([0; 256], [0; 512]);
+		while !closed.get() {
+			// Treat a broken pipe as its end.
+			let l = io.read(&mut data).await.unwrap_or(0);
+			if l == 0 {
+				break;
+			}
+			let msg = msg::Channel::Data(msg::channel::Data {
+				recipient_channel: channel,
+				data: &data[..l],
+			});
+			self.send_channel(&mut buf, closed, msg).await?;
+		}
+		Ok(())
+	}
+
 	async fn receive(
 		&self,
-		buf: &mut [u8],
 		server: &Server<Handlers>,
 	) -> Result<Action<Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
 		let mut read = self.read.borrow_mut();
-		let (rd, enc) = &mut *read;
+		let (rd, enc, buf) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			let msg = match Message::parse(data) {
@@ -402,6 +445,7 @@ where
 						ty: ChannelType::Session,
 						stdin: None,
 						started: false,
+						closed: Rc::new(Cell::new(false)),
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
@@ -438,6 +482,7 @@ where
 						_ => None,
 					};
 					let channel = ch.peer_channel;
+					let closed = ch.closed.clone();
 					let msg = Message::Channel(if io.is_some() {
 						msg::Channel::Success(msg::channel::Success { recipient_channel: channel })
 					} else {
@@ -457,16 +502,8 @@ where
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
-						}
+					if let Some(wait) = wait {
+						return Ok(Action::NewIo { stdout, stderr, wait, channel, closed });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
@@ -491,7 +528,12 @@ where
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
-					self.channels.borrow_mut().remove(c.recipient_channel);
+					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
+					if let Some(ch) = ch {
+						self.send_close(buf, &ch.closed, ch.peer_channel)
+							.await
+							.map_err(ReceiveError::Out)?;
+					}
 				}
 				// FIXME the window is not taken into account when sending
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
@@ -529,6 +571,7 @@ where
 		stderr: Option<Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
 		channel: u32,
+		closed: Rc<Cell<bool>>,
 	},
 }
 
@@ -542,6 +585,8 @@ where
 	stdin: Option<Stdin>,
 	/// Whether a program was started.
 	started: bool,
+	/// Whether a close message was sent.
+	closed: Rc<Cell<bool>>,
 }
 
 pub struct IoSet<Stdin, Stdout, Stderr>
-- 
2.43.0


From 226fc991154b05ac3121c623f1b4a308405b6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:25 +0000
Subject: [PATCH 13/33] fix: send what a program writes to stderr as extended
 data

It was mixed into its standard output.
---
 nora_ssh/src/server.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index e85cd3a..2645fa9 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -29,6 +29,9 @@ use rand::{CryptoRng, RngCore, SeedableRng};
 use std::rc::Rc;
 use subtle::CtOption;
 
+/// RFC 4254 section 5.2
+const STDERR: u32 = 1;
+
 pub struct Server<Handlers>
 where
 	Handlers: ServerHandlers,
@@ -349,8 +352,8 @@ where
 	) -> Result<(), OutError> {
 		let output = async {
 			try_join!(
-				self.forward(stdout, channel, &closed),
-				self.forward(stderr, channel, &closed)
+				self.forward(stdout, channel, &closed, None),
+				self.forward(stderr, channel, &closed, Some(STDERR))
 			)?;
 			let msg = msg::Channel::Eof(msg::channel::Eof { recipient_channel: channel });
 			self.send_channel(&mut [0; 256], &closed, msg).await
@@ -378,6 +381,7 @@ where
 		io: Option<Io>,
 		channel: u32,
 		closed: &Cell<bool>,
+		ty: Option<u32>,
 	) -> Result<(), OutError> {
 		let mut io = match io {
 			Some(io) => io,
@@ -390,10 +394,15 @@ where
 			if l == 0 {
 				break;
 			}
-			let msg = msg::Channel::Data(msg::channel::Data {
-				recipient_channel: channel,
-				data: &data[..l],
-			});
+			let (recipient_channel, data) = (channel, &data[..l]);
+			let msg = match ty {
+				None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
+				Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+					recipient_channel,
+					ty,
+					data,
+				}),
+			};
 			self.send_channel(&mut buf, closed, msg).await?;
 		}
 		Ok(())
-- 
2.43.0


From 0dd5d660b53db07f39442c905afeb8fceb2aef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:42 +0000
Subject: [PATCH 14/33] hook: expose internals under cfg(nora_verif)

---
 nora_ssh/src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nora_ssh/src/lib.rs b/nora_ssh/src/lib.rs
index 24f6e1b..9316bdc 100644
--- a/nora_ssh/src/lib.rs
+++ b/nora_ssh/src/lib.rs
@@ -10,3 +10,23 @@ pub mod server;
 mod sync;
 
 pub use nora_ssh_core::{cipher, identifier::Identifier};
+
+/// Internals, for verification from outside this crate.
+#[cfg(nora_verif)]
+pub mod verif {
+	pub mod arena {
+		pub use crate::arena::*;
+	}
+	pub mod host {
+		pub use crate::host::*;
+	}
+	pub mod identifier {
+		pub use crate::identifier::*;
+	}
+	pub mod packet {
+		pub use crate::packet::*;
+	}
+	pub mod sync {
+		pub use crate::sync::*;
+	}
+}
-- 
2.43.0


From d47230229a5d95c9fc340ef79fadafb45ef0262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 15/33] fix: accept channel types that have type-specific data

---
 nora_ssh_core/src/message/channel/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nora_ssh_core/src/message/channel/mod.rs b/nora_ssh_core/src/message/channel/mod.rs
index 5d77719..b49c8c8 100644
--- a/nora_ssh_core/src/message/channel/mod.rs
+++ b/nora_ssh_core/src/message/channel/mod.rs
@@ -172,12 +172,13 @@ impl<'a> Open<'a> {
 		let (ty, data) = parse_string(data).ok_or(OpenParseError::Truncated)?;
 		if data.len() < 12 {
 			Err(OpenParseError::Truncated)
-		} else if data.len() > 12 {
+		} else if data.len() > 12 && ty == b"session" {
 			Err(OpenParseError::Unread)
 		} else {
+			// Other types may have additional, type-specific data (RFC 4254 section 5.1).
 			let sender_channel = u32::from_be_bytes(data[..4].try_into().unwrap());
 			let window_size = u32::from_be_bytes(data[4..8].try_into().unwrap());
-			let max_packet_size = u32::from_be_bytes(data[8..].try_into().unwrap());
+			let max_packet_size = u32::from_be_bytes(data[8..12].try_into().unwrap());
 			Ok(Self { ty, sender_channel, window_size, max_packet_size })
 		}
 	}
-- 
2.43.0


From 8b72ce7fd1a6b263b649e6c7336d84e51db60a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:45 +0000
Subject: [PATCH 16/33] fix: announce and replenish the server's own channel
 window

The confirmation echoed the window and packet size of the client, so the
client was allowed packets which the server refuses and nothing at all if
its own window was 0, and as the window was never adjusted uploads stalled.
---
 nora_ssh/src/server.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 2645fa9..384ca5f 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -31,6 +31,10 @@ use subtle::CtOption;
 
 /// RFC 4254 section 5.2
 const STDERR: u32 = 1;
+/// How much data a client may send on a channel before it has to wait.
+const WINDOW_SIZE: u32 = 1 << 16;
+/// How much data a client may send at once. This must fit in the packet buffer.
+const MAX_PACKET_SIZE: u32 = 1 << 15;
 
 pub struct Server<Handlers>
 where
@@ -322,6 +326,22 @@ where
 			.await
 	}
 
+	/// Tell the client it can send more data.
+	async fn send_adjust(
+		&self,
+		buf: &mut [u8],
+		closed: &Cell<bool>,
+		recipient_channel: u32,
+		add_bytes: u32,
+	) -> Result<(), OutError> {
+		if add_bytes == 0 {
+			return Ok(());
+		}
+		let msg = msg::channel::WindowAdjust { recipient_channel, add_bytes };
+		self.send_channel(buf, closed, msg::Channel::WindowAdjust(msg))
+			.await
+	}
+
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
 		let mut sessions = FuturesUnordered::new();
 		// This future may be in the middle of a packet, so keep it until it is done.
@@ -460,8 +480,8 @@ where
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
-							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							window_size: WINDOW_SIZE,
+							max_packet_size: MAX_PACKET_SIZE,
 							data: &[],
 						},
 					));
@@ -526,8 +546,24 @@ where
 							ch.stdin.take();
 						}
 					}
+					let (peer, closed, l) = (ch.peer_channel, ch.closed.clone(), d.data.len());
+					drop(channels);
+					self.send_adjust(buf, &closed, peer, l as u32)
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
+				Message::Channel(msg::Channel::ExtendedData(d)) => {
+					let ch = self
+						.channels
+						.borrow_mut()
+						.get_mut(d.recipient_channel)
+						.map(|ch| (ch.peer_channel, ch.closed.clone(), d.data.len()));
+					if let Some((peer, closed, l)) = ch {
+						self.send_adjust(buf, &closed, peer, l as u32)
+							.await
+							.map_err(ReceiveError::Out)?;
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
-- 
2.43.0


From aa53ee327fb77b3e66f262f5b24e455e77ac0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:48 +0000
Subject: [PATCH 17/33] fix: use a random cookie for every key exchange

---
 nora_ssh/src/host.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 061b838..2cb4564 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -112,6 +112,8 @@ impl Host<p256::NistP256> {
 		identifier::send(self.identifier, write)
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		let mut cookie = [0; 16];
+		rng.fill_bytes(&mut cookie);
 		let mut host_pkt = [0; 256];
 		let host_pkt = Packet::wrap(
 			&mut host_pkt,
@@ -119,7 +121,7 @@ impl Host<p256::NistP256> {
 			true,
 			|buf| {
 				Message::KeyExchangeInit(KeyExchangeInit {
-					cookie: b"nomnommunchmunch",
+					cookie: &cookie,
 					kex_algorithms: b"curve25519-sha256".try_into().unwrap(),
 					server_host_key_algorithms: b"ecdsa-sha2-nistp256".try_into().unwrap(),
 					encryption_algorithms_client_to_server: b"chacha20-poly1305@openssh.com"
-- 
2.43.0


From 55d38e84cbfd1004be73d1a263cb767208b96281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 18/33] fix: take whole file names, and only from complete scp
 headers

---
 nora_scp/src/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..b0a672f 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -90,13 +90,12 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let header = header.strip_suffix('\n').ok_or("incomplete header")?;
+				// The file name may have spaces.
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
-				}
+				let file = parts.next().ok_or("missing file")?;
 				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
-- 
2.43.0


From 96934490529db4680671cdca26b2a037e3a65997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 19/33] fix: do not let an scp sender choose files outside the
 target directory

---
 nora_scp/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b0a672f..bfba554 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -133,6 +133,9 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					if file.contains('/') || matches!(file, "" | "." | "..") {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From 040196fecccdd1d2b88a27f23103ff2aeb69a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 20/33] fix: refuse directories instead of panicking in scp

---
 nora_scp/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index bfba554..f9fc668 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -100,7 +100,7 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-			(_, b'D') => todo!(),
+			(_, b'D') => Err("directories are not supported")?,
 			c => Err(format!("invalid mode {:?}", c))?,
 		}
 	}
-- 
2.43.0


From ad131ba8cd3dd46497c627ce008f643b86677ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:49 +0000
Subject: [PATCH 21/33] fix: report failure of scp in its exit status

---
 nora_scp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index f9fc668..8bed545 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -28,11 +28,14 @@ use std::{
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args().next().as_deref().unwrap_or("scp"),
+				e
+			);
+			std::process::exit(1)
+		}
 	}
 }
 
-- 
2.43.0


From 90e49fcedd0f248579bec68df2667b8903a77a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:19 +0000
Subject: [PATCH 22/33] fix: wait for the receiver and send the actual size in
 scp

---
 nora_scp/src/main.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 8bed545..a8c4b6e 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -168,22 +168,43 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 	let mut buf = [0; 1 << 15];
+	let mut stdin = io::stdin().lock();
+	let mut stdout = io::stdout().lock();
+	let mut wait_ready = || -> Result<_, Box<dyn Error>> {
+		let mut b = [0];
+		stdin.read_exact(&mut b)?;
+		if b[0] != b'\0' {
+			Err("expected '\\0'")?;
+		}
+		Ok(())
+	};
+	wait_ready()?;
 	for path in from {
 		let mut f = File::open(path)?;
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
+			.ok_or("not a file")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
-		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
+		let size = f.metadata()?.len();
+		write!(stdout, "C{:04o} {} {}\n", 0o644, size, name)?;
+		stdout.flush()?;
+		wait_ready()?;
+		let mut left = size;
+		while left > 0 {
+			let l = left.min(buf.len() as u64) as usize;
+			match f.read(&mut buf[..l])? {
+				0 => Err("file became shorter")?,
+				n => {
+					stdout.write_all(&buf[..n])?;
+					left -= n as u64;
+				}
 			}
 		}
+		stdout.write_all(b"\0")?;
+		stdout.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From aa0f741383c5f001137b3e07f908dc6608dfcce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 23/33] fix: refuse passwords in sshd instead of panicking

---
 nora_sshd/src/main.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..3a4cfce 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -77,9 +77,7 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
-- 
2.43.0


From a24ded5fae072abf74b64b8b40b766af83c14966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 24/33] fix: refuse user names that are not UTF-8 in sshd
 instead of panicking

---
 nora_sshd/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3a4cfce..9bb9c2d 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -88,7 +88,8 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				let name = core::str::from_utf8(user).map_err(|_| ())?;
+				Ok(User { _name: name.into(), shell: None })
 			}
 		}
 	}
-- 
2.43.0


From 5c9786cec0c3caf67b1f7d8c8a824b1dd40fdfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 25/33] fix: refuse empty commands in sshd instead of panicking

---
 nora_sshd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 9bb9c2d..6d08ef8 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -127,7 +127,7 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
-- 
2.43.0


From 246e95edc25491738c3fb3c00832ce75bb4f8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 26/33] fix: report programs that cannot be started in sshd
 instead of panicking

---
 nora_sshd/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 6d08ef8..2002257 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -106,13 +106,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -134,7 +134,7 @@ impl ServerHandlers for Handlers {
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 841834e45c65e332f35f9a94d15d5b66746707ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 27/33] fix: keep sshd running when a connection cannot be
 accepted

---
 nora_sshd/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 2002257..d1d9557 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -52,7 +52,13 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => break stream.split(),
+				// The client may be gone already. Let the others go on before trying again.
+				Err(_) => async_std::task::yield_now().await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0


From 6b8a3fe0b08974cc1cb803d3f3e1470418ab7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 28/33] fix: do not report success for killed programs in sshd

---
 nora_sshd/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index d1d9557..642e44c 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -108,7 +108,12 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				let status = wait.await.unwrap();
+				// Like shells do for programs that were killed.
+				let killed = || 128 + status.signal().unwrap_or(0);
+				status.code().unwrap_or_else(killed) as u32
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From 2a7f8f32e3b2cbac7d1de669942d5ef7f2fdfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:04 +0000
Subject: [PATCH 29/33] fix: no reply to a request on a channel that was closed
 already

---
 nora_ssh/src/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 384ca5f..e97021a 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -512,11 +512,11 @@ where
 					};
 					let channel = ch.peer_channel;
 					let closed = ch.closed.clone();
-					let msg = Message::Channel(if io.is_some() {
+					let msg = if io.is_some() {
 						msg::Channel::Success(msg::channel::Success { recipient_channel: channel })
 					} else {
 						msg::Channel::Failure(msg::channel::Failure { recipient_channel: channel })
-					});
+					};
 					let (stdout, stderr, wait) = match io {
 						Some(io) => {
 							ch.started = true;
@@ -527,7 +527,7 @@ where
 					};
 					drop(channels);
 					if r.want_reply {
-						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						self.send_channel(buf, &closed, msg)
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-- 
2.43.0


From f67759eec4ee577842b3eb74326dac104595f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 30/33] fix: do not report success when more files are sent
 than paths given

---
 nora_scp/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index a8c4b6e..e281179 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -162,6 +162,9 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				}
 			}
 		}
+		if read_header(&stdin, &mut header)?.is_some() {
+			Err("more files than paths")?;
+		}
 	}
 	Ok(())
 }
-- 
2.43.0


From b8bfe994e1b3bf9c9725f55de1a0ff17e9bc5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 31/33] fix: ignore IGNORE, DEBUG and UNIMPLEMENTED during
 authentication

---
 nora_ssh/src/server.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index e97021a..2c7ce2a 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -114,8 +114,14 @@ where
 		pkt_buf_mini.resize(pkt_buf.len(), 0);
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
-		let msg = Message::parse(data).map_err(|_| ())?;
+		let msg = loop {
+			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+			match Message::parse(data).map_err(|_| ())? {
+				// RFC 4253 section 11: ignored at any time
+				Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) => {}
+				msg => break msg,
+			}
+		};
 		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
@@ -139,6 +145,9 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
+			if let Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) = msg {
+				continue;
+			}
 			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
-- 
2.43.0


From 59e584c1f85d1f7d9fee150f9180653a46ad9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 32/33] fix: a program started after EOF gets no input instead
 of an open one

---
 nora_ssh/src/server.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 2c7ce2a..41d199c 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -482,6 +482,7 @@ where
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session,
 						stdin: None,
+						eof: false,
 						started: false,
 						closed: Rc::new(Cell::new(false)),
 					});
@@ -529,7 +530,7 @@ where
 					let (stdout, stderr, wait) = match io {
 						Some(io) => {
 							ch.started = true;
-							ch.stdin = io.stdin;
+							ch.stdin = io.stdin.filter(|_| !ch.eof);
 							(io.stdout, io.stderr, Some(io.wait))
 						}
 						None => (None, None, None),
@@ -574,12 +575,12 @@ where
 					}
 				}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channels
-						.borrow_mut()
+					let mut channels = self.channels.borrow_mut();
+					let ch = channels
 						.get_mut(e.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?
-						.stdin
-						.take();
+						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?;
+					ch.eof = true;
+					ch.stdin.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
@@ -637,6 +638,8 @@ where
 	#[allow(dead_code)]
 	ty: ChannelType,
 	stdin: Option<Stdin>,
+	/// Whether the client has no more input. It may say so before a program is started.
+	eof: bool,
 	/// Whether a program was started.
 	started: bool,
 	/// Whether a close message was sent.
-- 
2.43.0


From 1b39241622d3a529511180bf41f2384f4c4c4b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 33/33] fix: scp: do not send a file name with a newline, it
 ends the header early

---
 nora_scp/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index e281179..fa2ed3e 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -190,6 +190,10 @@ fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 			.ok_or("not a file")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
+		if name.contains('\n') {
+			// It would end the header.
+			Err("file name with a newline")?;
+		}
 		let size = f.metadata()?.len();
 		write!(stdout, "C{:04o} {} {}\n", 0o644, size, name)?;
 		stdout.flush()?;
-- 
2.43.0


"""Text of the properties."""
HOOK_COMMITS = ['0dd5d660b53db07f39442c905afeb8fceb2aef4f']
NA = {}
TEXT = {}


def p(pid, **kw):
    TEXT[pid] = kw


p('C01', title='Decoding of untrusted message payloads is exact and cannot panic',
  statement='For every byte string, decoding it as an SSH message either yields exactly the message kind and field values that the RFC layout of that message number assigns to those bytes, or reports an error when the bytes do not match that layout (unknown number, truncated, trailing bytes, length fields that exceed the data, invalid name list, invalid text encoding, non-zero reserved word). It never panics, never reads outside the input, and never accepts a malformed message or rejects a well-formed one.',
  over=['inputs'], quant='all byte strings handed to the decoder, including every length-field value and every truncation',
  why='The tests decode a few hand-written messages; nearly all malformed inputs, length-field values and boundary lengths are never tried.',
  files=['nora_ssh_core/src/message/mod.rs', 'nora_ssh_core/src/message/userauth.rs', 'nora_ssh_core/src/message/channel/mod.rs', 'nora_ssh_core/src/message/key_exchange/mod.rs', 'nora_ssh_core/src/message/key_exchange/ecdh.rs', 'nora_ssh_core/src/data.rs'],
  mech=[('dispatch on the message number', 'nora_ssh_core/src/message/mod.rs Message::parse'), ('string, integer and name-list primitives', 'nora_ssh_core/src/data.rs')],
  observe=['Message::parse'])
p('C02', title='Every message survives encoding followed by decoding',
  statement='For every message value of every kind, encoding it into a large enough buffer and decoding the resulting bytes yields the same kind with every field equal to the original (integers in signatures compare as numbers).',
  over=['inputs'], quant='all message kinds and all field values, including empty, short and multi-byte-length strings',
  why='The tests round-trip one or two fixed values for some kinds; field values, lengths and most kinds are not sampled.',
  files=['nora_ssh_core/src/message/mod.rs', 'nora_ssh_core/src/message/userauth.rs', 'nora_ssh_core/src/message/channel/mod.rs', 'nora_ssh_core/src/message/key_exchange/ecdh.rs', 'nora_ssh_core/src/message/service.rs'],
  mech=[('serialize/parse pair of every message', 'nora_ssh_core/src/message'), ('make_*/parse_* primitives', 'nora_ssh_core/src/data.rs')],
  observe=['Message::serialize', 'Message::parse'])
p('C03', title='Encoded messages follow the RFC wire layout and stay inside the buffer',
  statement='Encoding any message yields exactly the message number followed by its fields in RFC order and representation (big-endian integers, 0/1 booleans, length-prefixed strings, minimal non-negative multi-precision integers), and returns the untouched rest of the buffer. It succeeds if and only if the buffer is at least as long as the encoding, and otherwise reports failure without panicking or writing past the end.',
  over=['inputs'], quant='all message kinds, all field values, all buffer sizes',
  why='The tests check a handful of byte strings against generous buffers; the exact-fit and too-small cases and most layouts are not covered.',
  files=['nora_ssh_core/src/message/mod.rs', 'nora_ssh_core/src/message/userauth.rs', 'nora_ssh_core/src/message/channel/mod.rs', 'nora_ssh_core/src/message/key_exchange/ecdh.rs', 'nora_ssh_core/src/data.rs'],
  mech=[('serialize of every message', 'nora_ssh_core/src/message'), ('make_* primitives with capacity checks', 'nora_ssh_core/src/data.rs')],
  observe=['Message::serialize'])
p('C04', title='Session channel requests and signals decode and encode exactly',
  statement='For every session request name and argument bytes, decoding yields exactly the request and field values of RFC 4254 section 6 or an error when name or bytes do not match, without panicking; known signal names always decode to their own signal and any other name is preserved verbatim. Encoding any request produces the RFC name and argument bytes, succeeds exactly when the buffer is large enough, and decodes back to the same request.',
  over=['inputs'], quant='all request names, all argument byte strings, all field values, all buffer sizes',
  why='Only a few requests are exercised by tests with one value each.',
  files=['nora_ssh_core/src/message/channel/session.rs', 'nora_ssh_core/src/data.rs'],
  mech=[('SessionRequest::parse and serialize', 'nora_ssh_core/src/message/channel/session.rs')],
  observe=['SessionRequest::parse', 'SessionRequest::serialize'])
p('C05', title='Name lists, ASCII text and length-prefixed strings are recognised exactly',
  statement='A byte string is accepted as a name list exactly when it is ASCII and is empty or a comma-separated sequence of non-empty names; iterating an accepted list yields exactly its names, unchanged and in order. ASCII text is accepted exactly when every byte is below 128, and keeps its bytes. A length-prefixed string is split off exactly when it is complete, for every length field. A version string is accepted exactly when it is at most 253 bytes long. None of these ever panic.',
  over=['inputs'], quant='all byte strings and all length-field values',
  why='Tests try a few lists; empty names at the edges, non-ASCII bytes at unusual positions and extreme length fields are not sampled.',
  files=['nora_ssh_core/src/data.rs', 'nora_ssh_core/src/identifier.rs'],
  mech=[('NameList, AsciiStr and parse_string', 'nora_ssh_core/src/data.rs'), ('Identifier::new', 'nora_ssh_core/src/identifier.rs')],
  observe=['NameList::try_from', 'NameList::iter', 'AsciiStr::try_from', 'parse_string', 'Identifier::new'])
p('C06', title='Outgoing packets are framed as RFC 4253 section 6 demands',
  statement='For every payload length, cipher block size and length-field convention, wrapping a payload yields a packet whose length field is big-endian and equals padding-length byte plus payload plus padding, whose padding is 4 to 255 bytes (and minimal), whose total (with or without the length field, per convention) is a multiple of the block size, and whose payload bytes are unchanged; exactly the padding is filled from the random source, nothing past the packet is written, and a receiver with the same convention recovers exactly the payload.',
  over=['inputs'], quant='all payload lengths and contents, block sizes and conventions',
  why='Tests frame two packets of one size; padding corner cases appear only at particular residues.',
  files=['nora_ssh_core/src/packet.rs'], mech=[('Packet::wrap', 'nora_ssh_core/src/packet.rs')], observe=['Packet::wrap', 'Packet::into_raw'])
p('C07', title='Incoming packet framing is validated before use',
  statement='For every length field that fits the buffer and every padding field, a packet is recognised exactly when its size is aligned to the block size and its padding fits inside it; the reported packet, padding and payload lengths and extents are then exact, and the error names the rule that was broken. It never panics or exposes bytes outside the packet.',
  over=['inputs'], quant='all length and padding field values, block sizes and conventions',
  why='Tests only recognise packets they framed themselves.',
  files=['nora_ssh_core/src/packet.rs'], mech=[('Packet::wrap_raw', 'nora_ssh_core/src/packet.rs')], observe=['Packet::wrap_raw'])
p('C08', title='The cipher is chacha20-poly1305@openssh.com and refuses forgeries',
  statement='For every key, sequence number and packet, the cipher seals a packet exactly as chacha20-poly1305@openssh.com specifies (length encrypted with the header key, body with the main key from block one, tag over both with the one-time key of block zero, big-endian sequence number as nonce), advances the sequence number by one per packet, decrypts the length without advancing, and opens a packet if and only if its tag is right, releasing exactly the plain text; a refused packet is not decrypted. Two ends with the same keys stay in step.',
  over=['inputs', 'histories'], quant='all keys, sequence numbers, packet contents and (for opening) all wire bytes; consecutive packets',
  why='Tests run one fixed vector; tag comparison on every byte, sequence-number advance and both directions need all values.',
  files=['nora_ssh_core/src/cipher/mod.rs', 'nora_ssh_core/src/cipher/chacha20poly1305.rs'],
  mech=[('encrypt, decrypt_length, decrypt_data', 'nora_ssh_core/src/cipher')], observe=['ChaCha20Poly1305::encrypt', 'ChaCha20Poly1305::decrypt_data'],
  note='ChaCha20 block function and Poly1305 are uninterpreted; within the stated lengths every key, nonce and byte value is covered.')
p('C09', title='Session keys are derived as RFC 4253 section 7.2 prescribes',
  statement='For every shared secret, exchange hash, purpose (initial IV, encryption key, integrity key) and direction, each derived key equals HASH(K || H || letter || session id) extended by HASH(K || H || previous output), with K encoded as a multi-precision integer (leading zeroes removed, a zero byte added before a set high bit) and the letters A to F assigned per purpose and direction.',
  over=['inputs'], quant='all shared secrets (including leading zero bytes and set high bits), hashes, purposes, directions and key lengths of 1-3 hash blocks',
  why='Secrets with leading zeroes or a set top bit occur rarely and no test derives keys from chosen ones.',
  files=['nora_ssh_core/src/key_exchange.rs'], mech=[('KeyMaterial', 'nora_ssh_core/src/key_exchange.rs')], observe=['KeyMaterial::encryption_key', 'KeyMaterial::initial_iv', 'KeyMaterial::integrity_key'])
p('C10', title='The key exchange is curve25519-sha256 with the signed exchange hash',
  statement='In every successful handshake the server sends its identification and KEXINIT, then KEXECDH_REPLY carrying its host key, a fresh share from the random source, and a signature by its host key over SHA-256 of exactly (client identification, server identification, client KEXINIT, server KEXINIT, host key, client share, server share, shared secret as mpint), then NEWKEYS. It aborts if the shared secret is all zero. From NEWKEYS on, both directions use the keys derived from that exchange with sequence numbers counted from the first packet, however the bytes are chunked.',
  over=['inputs', 'schedules'], quant='all client identifications, cookies, client shares, shared secrets (leading zeroes included), random bytes, and chunkings of the stream',
  why='No test runs a key exchange; secrets with leading zeroes, a set high bit or zero, and partial reads are practically never sampled.',
  files=['nora_ssh/src/server.rs', 'nora_ssh/src/host.rs', 'nora_ssh/src/identifier.rs', 'nora_ssh_core/src/message/key_exchange/ecdh.rs', 'nora_ssh_core/src/key_exchange.rs'],
  mech=[('key exchange', 'nora_ssh/src/server.rs'), ('exchange hash and signature', 'nora_ssh_core/src/message/key_exchange/ecdh.rs'), ('switch to encrypted packets', 'nora_ssh/src/host.rs')], observe=['bytes the server writes to the connection'],
  note='X25519, SHA-256 compression, ECDSA and the cipher primitives are uninterpreted functions.')
p('C11', title='Algorithm negotiation accepts exactly what both sides support',
  statement='The server continues the key exchange exactly if the client\'s KEXINIT offers curve25519-sha256, an ecdsa-sha2-nistp256 host key and chacha20-poly1305@openssh.com in both directions (as whole names anywhere in the lists); otherwise it ends the connection without sending anything more. When the client announces a guessed key exchange packet that does not match the negotiated algorithms, exactly that one packet is ignored.',
  over=['inputs'], quant='all algorithm lists (absent, earlier or later position, prefixes and extensions of supported names, single changed characters) and the guess flag',
  why='No test performs negotiation; near-miss names and wrong guesses need systematic variation.',
  files=['nora_ssh/src/server.rs', 'nora_ssh_core/src/message/key_exchange/mod.rs'],
  mech=[('negotiation', 'nora_ssh/src/server.rs')], observe=['bytes the server writes to the connection', 'connection closed'])
p('C12', title='No client can crash the server or skip steps before encryption starts',
  statement='Whatever bytes a client sends during identification and key exchange - malformed or truncated messages, out-of-order messages, any length field, a connection cut or failing at any byte - the server does not panic, performs no later step of the protocol, asks no handler, ends that connection, and goes on serving other clients.',
  over=['inputs', 'faults'], quant='all message payloads and wire bytes up to the bounds at every stage, all length fields, all cut points',
  why='No test talks to the server at all; crashes hide behind particular bytes at particular stages.',
  files=['nora_ssh/src/server.rs', 'nora_ssh/src/host.rs', 'nora_ssh/src/identifier.rs', 'nora_ssh_core/src/packet.rs'],
  mech=[('per-connection task', 'nora_ssh/src/server.rs'), ('plain packet reading', 'nora_ssh/src/host.rs')], observe=['bytes the server writes', 'connection closed', 'handler calls', 'next connection answered'])

SRV = ['nora_ssh/src/server.rs', 'nora_ssh/src/host.rs']
p('C13', title='Nobody gets past authentication without the handler\'s consent',
  statement='Until a handler has agreed to an authentication request of this connection, the server sends no USERAUTH_SUCCESS, opens no channel and starts no program, whatever sequence of requests the client makes. Only the ssh-userauth service is accepted. Each none, password or signed public-key request is put to the authentication handler exactly once with exactly the user, service and credentials sent; a public-key query is put to the key-lookup handler and answered with PK_OK (same algorithm and key) or FAILURE but never grants access; password changes, host-based and unknown methods are refused without asking anybody. Every refusal is a USERAUTH_FAILURE listing publickey,password without partial success. After consent, programs run as the user the handler returned, and further requests are ignored.',
  over=['inputs', 'histories'], quant='all sequences of authentication requests of all kinds, all contents, all verdicts of the handlers',
  why='No test authenticates; the guarantee is about every sequence of requests, not about one login.',
  files=SRV + ['nora_ssh_core/src/message/userauth.rs', 'nora_ssh/src/auth.rs'], mech=[('authentication loop', 'nora_ssh/src/server.rs authenticate_new_client')], observe=['handler calls', 'messages the server sends'])
p('C14', title='Public-key signatures are checked over this session and exactly this request',
  statement='For every signed public-key request, the data handed to the handler as the signed message is exactly the RFC 4252 section 7 encoding of this connection\'s session identifier (its exchange hash) and the user, service, algorithm and key blob of the request, together with the bare key and signature; a request or query whose key blob or signature names another algorithm is never put to a handler, and one whose signed data would exceed the server\'s limit (1 KiB) is refused. The handler\'s verdict is passed on unchanged.',
  over=['inputs'], quant='all users, services, algorithms, keys and signatures including empty ones and sizes at the limit, all session identifiers',
  why='A signature valid for another session or user must never count; no test builds the signed data.',
  files=SRV + ['nora_ssh_core/src/message/userauth.rs'], mech=[('signed data', 'nora_ssh_core/src/message/userauth.rs format_sign_data'), ('caller', 'nora_ssh/src/server.rs authenticate_new_client')], observe=['handler calls', 'messages the server sends'])
p('C15', title='No client can crash the server after encryption starts',
  statement='Whatever an encrypted client sends during authentication or afterwards - arbitrary or malformed messages, forged or truncated packets, messages for channels that do not exist, messages only a server may send - and wherever its connection is cut or fails, the server does not panic and goes on serving other clients; a forged packet is never acted upon and ends the connection, a connection that ended takes its programs\' pipes with it, nothing is started or authenticated without a proper request, and a connection that was not ended remains usable.',
  over=['inputs', 'faults', 'schedules'], quant='all payloads and wire bytes up to the bounds, all cut points, in every phase',
  why='No test talks to the server; crashes hide behind particular messages in particular states.',
  files=SRV + ['nora_ssh_core/src/message/mod.rs', 'nora_ssh_core/src/cipher/mod.rs'], mech=[('authentication loop', 'nora_ssh/src/server.rs authenticate_new_client'), ('connection loop', 'nora_ssh/src/server.rs Client::receive'), ('encrypted packet reading', 'nora_ssh/src/host.rs In::recv')], observe=['connection closed', 'messages the server sends', 'next connection answered'])
p('C16', title='Channels are numbered, opened, used and answered as RFC 4254 demands',
  statement='Every CHANNEL_OPEN gets exactly one answer naming the client\'s channel: a confirmation for sessions, a failure (unknown channel type) for anything else. Open channels have distinct numbers and every request goes to the channel it names; a close is answered with one close of the client\'s channel, after which that channel takes no requests. The first shell or exec request of a channel that can be satisfied starts exactly that program, once; nothing else starts anything. Requests are answered, with success exactly if they succeeded, exactly when a reply is wanted (and the server has not closed the channel already). Unknown messages are answered with UNIMPLEMENTED and their sequence number; IGNORE and DEBUG are not answered.',
  over=['inputs', 'histories'], quant='all sequences of opens, closes and requests, all channel numbers, types, names and commands',
  why='No test opens a channel; reuse of numbers and replies depend on the history.',
  files=SRV + ['nora_ssh/src/arena.rs', 'nora_ssh_core/src/message/channel/mod.rs'], mech=[('connection loop', 'nora_ssh/src/server.rs Client::receive'), ('channel numbers', 'nora_ssh/src/arena.rs')], observe=['messages the server sends', 'handler calls'])
p('C17', title='A program receives exactly its channel\'s data, in order',
  statement='The data a client sends on a channel is written to the standard input of the program of that channel, completely, unchanged and in order, however slowly the program accepts it and however messages of channels are interleaved; extended data is not. The input ends exactly when the client sends EOF (or closes), even if it does so before the program is started. A program that stops reading does not disturb the connection.',
  over=['inputs', 'schedules'], quant='all data, interleavings of two channels and partial or delayed writes',
  why='Partial writes and not-ready pipes depend on timing that no test controls.',
  files=SRV, mech=[('connection loop', 'nora_ssh/src/server.rs Client::receive')], observe=['bytes written to the program'])
p('C18', title='A program\'s output, error output and exit status arrive completely and in order',
  statement='Everything a program writes to standard output arrives at the client as channel data, everything it writes to standard error as extended data of type 1, completely and in order, on the client\'s channel, as soon as it is written; then exactly one EOF after both ended (a pipe that breaks counts as ended), exactly one exit-status with the program\'s status, and exactly one CHANNEL_CLOSE after all of these, with nothing following it. This holds for every order of these events, every delay or partial write of the connection, every choice of the selector, with several programs at once, and when the client closes first (then one close answers it and the output of the old program never appears on a new channel).',
  over=['inputs', 'schedules'], quant='all orders of output, ends and exit, all points where the connection is not ready or the client closes, all select orders within the bounds',
  why='Interleavings of two pipes, an exit and a slow connection cannot be sampled by a unit test, and none exists.',
  files=SRV + ['nora_ssh/src/sync.rs'], mech=[('run_session, forward', 'nora_ssh/src/server.rs'), ('write lock', 'nora_ssh/src/sync.rs')], observe=['messages the server sends'])

p('C19', title='Channel flow control: nobody stalls, nobody is flooded',
  statement='Whatever window and packet size the client announces for itself, the server announces a non-zero window and packet size of its own, accepts every data or extended-data message that keeps to them, and gives the window back once the data has been passed to the program or discarded, so that a client that keeps to the window can always go on sending. The total never exceeds 2^32-1 bytes. The server in turn never sends more data than the client\'s window and packet size allow.',
  over=['inputs', 'histories'], quant='all client windows and packet sizes, all sequences of data up to the announced limits',
  why='Stalls appear only after a window\'s worth of data or with unusual windows; no test opens a channel.',
  files=SRV + ['nora_ssh_core/src/message/channel/mod.rs'], mech=[('connection loop', 'nora_ssh/src/server.rs Client::receive')], observe=['messages the server sends', 'bytes written to the program'],
  note='The last sentence does not hold today: the client\'s window is ignored when sending. That is a known finding.')
p('C20', title='The client\'s identification line is found and taken exactly',
  statement='For every byte stream, however it is chunked, the identification is the first line (lines end with CR LF) that starts with "SSH-"; it is accepted exactly if it continues with "2.0-" and is at most 253 bytes long without CR LF, its bytes are kept unchanged (they enter the exchange hash), lines before it are skipped, nothing after it is consumed, and everything else is refused without a panic.',
  over=['inputs', 'schedules'], quant='all byte streams up to the bounds, all chunkings',
  why='No test feeds an identification to the server; look-alike prefixes, lone CR or LF and the length limit are corner cases.',
  files=['nora_ssh/src/identifier.rs', 'nora_ssh_core/src/identifier.rs'], mech=[('identifier::parse', 'nora_ssh/src/identifier.rs')], observe=['identifier::parse'])
p('C21', title='Clients served at the same time do not affect each other',
  statement='With several clients connected, each is served exactly as if it were alone: own keys with a fresh server share, own user, own channels, programs, input and output, whatever the interleaving; a client whose connection breaks or misbehaves at any step affects nobody else.',
  over=['schedules', 'faults', 'histories'], quant='all interleavings of two clients with a bounded number of switches, a failure at any step',
  why='No test runs the server; mix-ups need particular interleavings.',
  files=SRV + ['nora_ssh/src/arena.rs'], mech=[('Server::start', 'nora_ssh/src/server.rs')], observe=['messages each client receives', 'handler calls', 'bytes written to programs'])
p('C22', title='Every message gets through whatever its size and chunking',
  statement='What the server answers, starts and passes on is the same whether messages arrive byte by byte, all at once, with delays or in any other chunking, and however slowly its own bytes are taken; packets of up to 35000 bytes (RFC 4253 section 6.1) are processed in every phase.',
  over=['inputs', 'schedules'], quant='all chunkings within the bounds, all packet sizes up to the limit (boundary sizes)',
  why='Short reads and writes and maximal packets do not occur in any test.',
  files=SRV + ['nora_ssh/src/packet.rs'], mech=[('In::recv, Out::send', 'nora_ssh/src/host.rs'), ('packet::parse', 'nora_ssh/src/packet.rs')], observe=['messages the server sends', 'handler calls'])
p('C23', title='Tasks sharing a connection\'s writer take turns and none is forgotten',
  statement='The lock that tasks of a connection share is held by at most one task at a time, across suspensions; when it is released, or its holder or a waiting task is dropped, every remaining waiter eventually gets it, under every schedule.',
  over=['schedules', 'faults'], quant='all schedules of a bounded number of tasks, tasks dropped at any point, spurious polls',
  why='Lost wake-ups need a particular order of polls and drops.',
  files=['nora_ssh/src/sync.rs'], mech=[('LocalMutex', 'nora_ssh/src/sync.rs')], observe=['LocalMutex::lock'])

SCP = ['nora_scp/src/main.rs']
p('C24', title='scp reports success only for files that arrived completely and unchanged',
  statement='As receiver (-t), scp creates each file it is sent - under the name sent in the directory given with -d, or at the given paths in turn - with exactly the content sent, replacing what was there, and leaves other files alone. It says ready (a zero byte) once at the start, once after each header and once after each complete file, never for an incomplete one, and never waits for a sender that waits for it. A file that the sender does not end with a zero byte counts as incomplete. It exits with status 0 exactly if the sender ended at the end of a complete file and everything could be written; wrong arguments or an unreadable file give a non-zero status.',
  over=['inputs', 'faults', 'schedules'], quant='all names, contents, sizes around the buffer size, chunkings, points at which the sender goes away or writing fails',
  why='nora_scp has no tests; lost endings of transfers and short reads need particular timing.',
  files=SCP, mech=[('receive', 'nora_scp/src/main.rs'), ('read_header', 'nora_scp/src/main.rs')], observe=['files created', 'bytes on standard output', 'exit status'])
p('C25', title='An scp sender cannot write outside the target or crash the receiver',
  statement='Whatever bytes a sender sends, a receiving scp creates only files directly inside the directory given (names that are empty, ".", ".." or contain a slash are refused with a non-zero status and no file), or only the paths given; it does not panic; and when it exits with status 0 every file was acknowledged and no more content was stored than was sent.',
  over=['inputs'], quant='all byte strings from the sender within the bounds',
  why='Hostile names and malformed headers are unbounded in variety; nora_scp has no tests.',
  files=SCP, mech=[('read_header', 'nora_scp/src/main.rs'), ('receive', 'nora_scp/src/main.rs')], observe=['files created', 'exit status'])
p('C26', title='scp sends each file whole, in step with the receiver',
  statement='As sender (-f), scp waits for the receiver to be ready before the first header, sends for each file in turn the header (C, mode 0644, the size in decimal, the last component of the path, newline), waits, sends exactly the content followed by a zero byte, and waits; after an answer other than zero it sends nothing more and exits with a non-zero status, and with 0 exactly if all files were acknowledged. A name that a header cannot carry (with a line feed) is refused before anything of that file is sent. It never waits with unsent bytes in its buffer.',
  over=['inputs', 'schedules'], quant='all contents, sizes around the buffer size, points of refusal and refusing bytes, chunkings',
  why='nora_scp has no tests; ordering, buffering and refusals only show with a peer.',
  files=SCP, mech=[('send', 'nora_scp/src/main.rs')], observe=['bytes on standard output', 'exit status'])

SSHD = ['nora_sshd/src/main.rs']
p('C27', title='The daemon lets in only clients that prove possession of their key',
  statement='nora_sshd grants access exactly to clients that present an ssh-ed25519 key together with a signature that verifies under that key over this session\'s signed data, with a UTF-8 user name. No credentials, passwords, other algorithms, keys or signatures of wrong length and signatures that do not verify are answered with USERAUTH_FAILURE, open no channel and start no program; a key query is answered positively only for ssh-ed25519 and grants nothing. None of these makes the daemon panic or stop serving others.',
  over=['inputs'], quant='all user names, passwords, algorithms, keys and signatures within the bounds',
  why='nora_sshd has no tests, and unusual credentials must neither get in nor crash the daemon.',
  files=SSHD + SRV, mech=[('Handlers::authenticate, public_key_exists', 'nora_sshd/src/main.rs')], observe=['messages the daemon sends', 'programs started'])
p('C28', title='The daemon runs what was asked, reports how it ended and keeps running',
  statement='For an exec request, nora_sshd starts exactly one program with the words of the command (separated by ASCII white space) unchanged and in order; for a shell request, $SHELL. Input, output and error output are connected to the channel; the exit status sent is the program\'s own, and not 0 for a program killed by a signal; programs of different channels do not disturb each other. Empty commands, a missing $SHELL and programs that cannot be started are answered with CHANNEL_FAILURE. Nothing of this, and no connection that cannot be accepted, stops the daemon.',
  over=['inputs', 'faults', 'histories'], quant='all commands within the bounds, all exit codes and signals, failures to start and to accept',
  why='nora_sshd has no tests; failures to start programs or accept connections are hard to provoke.',
  files=SSHD + SRV, mech=[('Handlers::spawn, accept', 'nora_sshd/src/main.rs')], observe=['programs started', 'messages the daemon sends'])

p('C29', title='Messages that ask for nothing do not disturb a connection',
  statement='Once a connection is encrypted, IGNORE, DEBUG and UNIMPLEMENTED messages are neither answered nor do they end the connection, at any stage: before the service request, during authentication and afterwards. After authentication the same holds for further authentication requests and for window adjustments and closes of channel numbers that are not open; messages with unknown numbers are then answered with UNIMPLEMENTED naming their sequence number and nothing else. No handler is asked, and everything that follows - authentication, channels, programs, their input and output - goes on exactly as without them.',
  over=['inputs', 'histories'], quant='all contents of such messages up to the bounds, at every stage of a connection, several in a row, one by one or together with what follows',
  why='Clients send them for padding, keep-alive and against traffic analysis; no test talks to the server.',
  files=SRV, mech=[('authentication', 'nora_ssh/src/server.rs authenticate_new_client'), ('connection loop', 'nora_ssh/src/server.rs Client::receive')], observe=['messages the server sends', 'handler calls', 'connection closed'])

for pid, o in {'C01': 'an independent decoder per message number (`hcore/src/model.rs`), written as a cursor over the RFC field list; result and every field are compared.',
    'C02': 'the value that was encoded; signature integers compared as numbers.',
    'C03': 'an independent encoder (concatenation of RFC fields); the remaining buffer and success/failure at every buffer size.',
    'C04': 'independent decoder and encoder of RFC 4254 section 6 requests.',
    'C05': 'character-level definition of name lists, ASCII and length-prefixed strings.',
    'C06': 'the arithmetic of RFC 4253 section 6 on the symbolic length; buffer contents before and after.',
    'C07': "the same arithmetic, from the receiver's side.",
    'C08': 'the OpenSSH cipher text written out over the same uninterpreted block function and MAC.',
    'C09': 'RFC 4253 section 7.2 written out over the uninterpreted hash.',
    'C10': 'a client of our own that computes hash, signature input and keys itself and talks to the server under them.',
    'C11': 'membership of the supported names in the lists, character by character.',
    'C12': 'no panic, no bytes and no handler calls after the offence, connection closed, the next client is answered.',
    'C13': 'the list of handler calls and replies that RFC 4252 implies for the sequence sent.',
    'C14': "RFC 4252 section 7 data built by the harness from the client's own session identifier.",
    'C15': 'as for C12; pipes of programs dropped; if the connection lives, a channel can still be opened.',
    'C16': 'a table of open channels kept by the harness; the replies RFC 4254 demands.',
    'C17': 'the concatenation of the data sent to each channel.',
    'C18': 'the concatenation of what the program wrote; counts and order of EOF, exit-status and CLOSE.',
    'C19': 'window arithmetic kept by the harness from the messages of both sides.',
    'C20': 'a reference recogniser over the whole stream; bytes left unread.',
    'C21': "each client's own complete specification (as for a single client), run side by side.",
    'C22': 'the same transcript as with unchunked delivery; maximal packets.',
    'C23': 'at most one holder; when nobody can run any more, everybody not dropped has finished.',
    'C24': 'the file system model after the run; the bytes on standard output; exit status.',
    'C25': 'the paths opened for writing; exit status; no panic.',
    'C26': 'header and contents written out; the receiver checks what it heard at every answer.',
    'C27': 'the uninterpreted signature predicate on exactly (key, signed data of this session, signature).',
    'C29': 'the transcript of the same connection without them.',
    'C28': 'word splitting written out; the program, its pipes and exit status in the model.'}.items():
    TEXT[pid]['oracle'] = o

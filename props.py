"""Which harnesses decide which property, and their bounds."""
HARNESS = {}


def h(name, crate, bounds, covers=(), **kw):
    HARNESS[name] = dict(crate=crate, bounds=bounds, covers=list(covers), **kw)


ALL_BYTES = 'all byte strings'
h('h_decode_transport', 'hcore', 'messages 1-6, 21, 30: all byte strings up to 16 bytes (per-type maximum 3-16)', ['accepted', 'rejected'])
h('h_decode_auth', 'hcore', 'messages 51, 52, 53, 60: all byte strings up to 14 bytes', ['accepted', 'rejected'])
h('h_decode_channel', 'hcore', 'messages 90-100: all byte strings up to 21 bytes (per-type maximum 6-21)', ['accepted', 'rejected'])
h('h_decode_unknown', 'hcore', 'every unassigned message number with 0-6 arbitrary bytes', ['rejected'])
h('h_decode_kexinit', 'hcore', 'KEXINIT: each of the ten lists arbitrary (0-4 bytes, or arbitrary 32-bit length), cookie, flags and reserved arbitrary; every truncation and one extra byte', ['accepted', 'rejected'])
h('h_decode_ecdhreply', 'hcore', 'KEXECDH_REPLY: arbitrary contents, 0-2 adjacent length fields arbitrary (0-255), every truncation and one extra byte', ['accepted', 'rejected'])
h('h_decode_userauth', 'hcore', 'USERAUTH_REQUEST: all methods and an arbitrary one, arbitrary contents, 0-2 adjacent length fields arbitrary (0-255), every truncation and one extra byte', ['accepted', 'rejected'])
LARGE = 'one field at a time of 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537 bytes (outer bytes arbitrary)'
h('h_decode_large', 'hcore', 'all message kinds, ' + LARGE + '; exact, one byte more, one byte less', ['accepted', 'rejected'])
h('h_roundtrip', 'hcore', 'all message kinds, every field value; strings of 0-5 bytes, one length varied at a time', ['roundtrip'])
h('h_roundtrip_large', 'hcore', 'all message kinds, ' + LARGE, ['roundtrip'])
h('h_layout', 'hcore', 'all message kinds, every field value; strings of 0-5 bytes', ['encoded'])
h('h_layout_large', 'hcore', 'all message kinds, ' + LARGE, ['encoded'])
h('h_fits', 'hcore', 'all message kinds; every buffer size from 0 to the message size', ['exact'])
h('h_fits_large', 'hcore', 'all message kinds, ' + LARGE + '; 24 smaller buffer sizes and the exact one', ['exact'])
h('h_session_decode', 'hcore', 'all eleven request names; all byte strings up to 26 bytes (per-type maximum)', ['accepted', 'rejected'])
h('h_session_names', 'hcore', 'all names of 0-14 bytes with 0-5 arbitrary bytes', ['accepted', 'rejected'])
h('h_session_roundtrip', 'hcore', 'all requests and signals, every field value; strings of 0-5 bytes; every smaller buffer', ['roundtrip'])
h('h_session_roundtrip_large', 'hcore', 'all requests and signals, ' + LARGE, ['roundtrip'])
h('h_names', 'hcore', 'name lists: all byte strings of 0-8 bytes (thorough 0-10)', ['accepted', 'rejected'])
h('h_names_long', 'hcore', 'name lists of 9-80 bytes (eleven lengths) with two adjacent arbitrary bytes at every position; of 130, 258 and 600 bytes with the comma at four and two arbitrary bytes at six places', ['accepted', 'rejected'])
h('h_ascii', 'hcore', 'text of fifteen lengths between 0 and 65 with any two bytes arbitrary', ['accepted', 'rejected'])
h('h_string', 'hcore', 'length-prefixed strings: all byte strings of 0-19 bytes (thorough 0-39)', ['accepted', 'rejected'])
h('h_ident_len', 'hcore', 'version strings of every length 0-600', ['accepted', 'rejected'])
h('h_wrap_all_lengths', 'hcore', 'every payload length up to 128 KiB - 256 (symbolic), all four block sizes, both length-field conventions', ['wrapped', 'recognised'])
h('h_wrap_content', 'hcore', 'arbitrary payload, padding and buffer contents; payload lengths 0-149 (thorough 0-299), all block sizes and conventions', ['received'])
h('h_wrap_raw', 'hcore', 'every length field that fits 128 KiB and every padding field, all block sizes and conventions', ['accepted', 'misaligned', 'padding'])
CRY = 'every key, hash, sequence number (below 2^64-101), both directions; two or three consecutive packets, the first with one of 12 body lengths 8-200, arbitrary contents; ChaCha20 block function and Poly1305 are uninterpreted functions'
h('h_seal', 'hcore', CRY, ['sealed'])
h('h_open', 'hcore', CRY + '; the wire bytes are arbitrary', ['opened', 'refused'])
h('h_lockstep', 'hcore', CRY, ['three packets'])
h('h_cipher_large', 'hcore', 'as above with body lengths 256, 1024, 16320, 16384, 34976, 264, 504 (thorough ten) and arbitrary outer bytes; one byte at one of two (thorough seven) places changed to any value', ['opened', 'refused'])
h('h_derive', 'hcore', 'every 32-byte secret (leading zeroes and high bits included), hash, purpose and direction; 1-3 hash blocks; the hash is an uninterpreted function', ['derived'])

h('h_kex_exchange', 'hssh', 'one connection; client identification of six lengths 8-253 with arbitrary outer bytes, arbitrary cookie, client key and random bytes; three ways of chunking each direction (all at once, byte-wise, byte-wise with not-ready before each)', ['exchanged'])
h('h_kex_secret', 'hssh', 'one connection; every shared secret (all 2^256 values of the abstract function, any number of leading zeroes), arbitrary cookie, client key and random bytes', ['exchanged', 'zero'])
h('h_kex_negotiate', 'hssh', 'one connection; twelve shapes (absent, first, later, after a name of 300 bytes or 40 names, prefix, extension, any one byte changed) of two of the four algorithm lists at a time; guessed packet announced or not', ['refused', 'agreed', 'skipped'])
h('h_kex_malformed', 'hssh', 'in place of each of the three client messages of the key exchange: all payloads of 0-8 bytes (thorough 0-15), client keys of five wrong lengths, truncated/extended messages, messages out of order; then another client connects', ['init', 'key', 'newkeys'])
h('h_kex_wire', 'hssh', 'at each of three stages of the key exchange: 0-16 arbitrary bytes on the wire (thorough 0-28), then end of stream; then another client connects', ['ended'])
h('h_kex_length', 'hssh', 'length field of any value 0-40 or 65500 to 2^32-1 followed by 70000 bytes', ['ended'])
h('h_kex_cut', 'hssh', 'the connection ends, or reading or writing fails, after any number of bytes of the key exchange', ['ended'])

ONE = 'one client against the whole server; cookie, keys and random bytes arbitrary'
h('h_auth_gate', 'hssh', 'all sequences of 1-3 requests (thorough 1-4) of seven kinds with every verdict of the handler; user names of 0-3, services empty, any byte or ssh-connection, passwords, keys, algorithms and signatures of 0-6 arbitrary bytes; then attempts to open a channel and start a program, and a further request', ['granted', 'refused'])
h('h_auth_sign', 'hssh', 'signed requests: one of user, service, algorithm, key, signature at a time of fourteen lengths 0-1100 with arbitrary outer bytes; algorithm names of key and signature equal, longer, shorter or with any other last byte; both verdicts', ['asked', 'mismatch', 'oversized'])
h('h_auth_query', 'hssh', 'key queries: algorithm or key of seven lengths 0-1100 with arbitrary outer bytes; name in the key equal, longer, shorter, with any other last byte, or with a byte after the key; both verdicts', ['asked', 'mismatch'])
h('h_auth_arbitrary', 'hssh', 'in the authentication phase: all payloads of 0-16 bytes (thorough 0-23), then an attempt to open a channel, then another client connects', ['ended', 'failed'])
h('h_auth_lengths', 'hssh', 'requests of seven kinds truncated anywhere, extended by any byte, or with any one byte changed to any value', ['ended', 'failed'])
h('h_auth_service', 'hssh', 'in place of the service request: all payloads of 0-15 bytes (thorough 0-19), names of seven other services, the proper one with any byte changed to any value, shorter, longer, or an authentication request', ['refused', 'accepted'])
h('h_auth_wire', 'hssh', 'all 0-44 (thorough 0-60) bytes of cipher text that are not a genuine packet, then end of stream', ['ended'])
h('h_channel_numbers', 'hssh', 'all sequences of 6 (thorough 8) open/close operations with arbitrary client channel numbers, windows and packet sizes', ['closed', 'numbered'])
h('h_channel_types', 'hssh', 'channel types: all of 0-8 bytes, "session" with any byte changed, shorter, longer, and others; 0-2 bytes of extra data; any client channel number', ['refused', 'malformed', 'opened'])
h('h_channel_requests', 'hssh', 'all sequences of two requests of eight kinds (shell, exec, malformed ones, unsupported ones), commands of 0, 1, 5, 300 bytes, reply wanted or not, program starting or failing, in between nothing, EOF, data, or data to a program that stopped reading; any client channel number', ['started', 'failed'])
h('h_channel_stdin', 'hssh', 'two channels with programs; all sequences of 3 (thorough 4) of data, extended data, empty data, EOF, requests that fail, to either; server run or not after each; four ways in which the program accepts its input', ['delivered', 'ended'])
h('h_channel_many', 'hssh', '3 or 4 (thorough 6) channels with programs; one (thorough two) of data, EOF or extended data to any channel number at all, a close of any of them or none, then data to all; handlers done at once or later', ['delivered', 'closed', 'unknown'])
h('h_request_kinds', 'hssh', 'one (thorough two) of nine standard session requests, well-formed or not, or any type of 3, 6 or 13 bytes, with or without reply, before or after a program is started', ['answered', 'silent'])
h('h_request_many', 'hssh', '3 or 6 channels; a program on any of them, a close of any, then requests on all; handlers done at once or later', ['numbered'])
h('h_channel_stdin_broken', 'hssh', 'the program\'s input fails on every write', ['survived'])
h('h_session_output', 'hssh', 'all orders of output, error output, their ends and the exit; output of 1-257 bytes, any exit status, with or without each pipe; server run or not after each event; up to 1 (thorough 2) not-ready or partial writes or changed select orders anywhere', ['complete'])
h('h_session_prompt', 'hssh', 'output, then each of the three ends first', ['prompt'])
h('h_session_two', 'hssh', 'two programs writing at once with a reply in between and one ending; up to 1 (thorough 2) not-ready or partial writes and changed select orders anywhere', ['both'])
h('h_session_close', 'hssh', 'the client closes at each of five points of a program\'s life, server run or not between events; up to 1 (thorough 2) not-ready or partial writes or changed select orders', ['closed'])
h('h_session_blocked', 'hssh', 'two programs; the client does not read: 1 of 4 events first, then 2 (thorough 3) of six (close, output of either stream or program, end of a program, request), every first choice of the selector', ['unblocked'])
h('h_session_late', 'hssh', 'the program has ended, the server has closed the channel or is about to; 1-2 (thorough 1-3) messages of seven kinds on it, then a close and a new channel with the same client number (any)', ['late'])
h('h_conn_arbitrary', 'hssh', 'all payloads of 0-13 bytes (thorough 0-14) without a channel, with an idle channel and with a program running; then another client connects', ['ended', 'usable'])
h('h_conn_mutated', 'hssh', 'messages of eleven kinds truncated anywhere, extended by any byte, or with any one byte changed to any value, in the same three states', ['ended', 'usable'])
h('h_conn_unknown', 'hssh', 'three (thorough four) messages with any unassigned number and 0-2 arbitrary bytes, IGNORE or DEBUG', ['unknown'])
h('h_conn_end', 'hssh', 'nine kinds of messages that end a connection, any channel number that is not open, with and without a program', ['ended'])
h('h_conn_cut', 'hssh', 'the connection ends or fails (reading, or reading and writing) after any byte of four messages, with or without output pending; one (thorough two) changed select orders', ['ended'])

h('h_long_auth', 'hssh', '20 (thorough 40; 300 of the same kind without key) refused requests alternating between any two of seven kinds, then one agreed to', ['granted'])
h('h_long_channels', 'hssh', '1, 3 or 20 channels open; 16 (thorough 40; with one channel 300) times one of them (first, last, middle, each in turn) ends or is closed and another takes its place, half with programs', ['open'])
h('h_long_output', 'hssh', '30 (thorough 100) pieces of output of 3-257 bytes or 300 of 1-3 bytes, 8 (40) of 1000-5002, 2 of 40000, on either or both pipes, the server run after every one, every fourth or at the end', ['complete'])
h('h_long_input', 'hssh', '40 (thorough 100; of 1-3 bytes 300) data messages of 1-5002 bytes or 6 of 32766-32768, the program reading in three ways, extended data in between or not', ['complete'])
h('h_long_unknown', 'hssh', 'any unassigned message number from 192 after 1-600 (thorough 4000) other messages', ['unknown'])

h('h_large_auth', 'hssh', 'requests of six kinds, one field at a time of nine lengths 255-32000 (outer bytes arbitrary), both verdicts', ['agreed', 'refused'])
h('h_large_requests', 'hssh', 'exec, env and unknown channel requests with commands or data of twelve lengths 254-32600 (outer bytes arbitrary)', ['started', 'failed'])
h('h_many_channels', 'hssh', '130, 258 or 300 (thorough 600) channels open at once; one of three positions closed and reopened with any client number; then a program on one of eleven positions', ['open'])
h('h_long_skipped', 'hssh', 'a wrongly guessed packet of 1-9 bytes skipped in the key exchange, or none; then a signed request, 0-2 ignored messages and an unassigned message', ['skipped', 'plain'])
h('h_session_broken', 'hssh', 'either or both output pipes fail when read, before or after output; any exit status; another program beside it', ['broken'])
h('h_window', 'hssh', 'any client channel number, window and packet size; all sequences of 3 (thorough 4) of data or extended data of one byte or as much as allowed, several packets at once, EOF, a program that stops reading, with and without a program', ['sent'])
h('h_window_peer', 'hssh', 'client windows of 0, 1, 2, 300, 65536 and packet sizes of 1, 2, 255, 32768 with three bytes of output', ['sent'])
h('h_identification', 'hparts', 'all 0-4 (thorough 0-5) bytes, followed by nothing, by a version line with any 0-3 bytes, or by a version line with any byte changed', ['accepted', 'refused'])
h('h_identification_lines', 'hparts', '0-2 lines of eight kinds before the version line, any byte of one (thorough: of each) changed to any value; bytes arriving in four ways', ['accepted', 'refused'])
h('h_identification_long', 'hparts', 'version lines of eleven lengths 8-300 with arbitrary last bytes, arriving in four ways', ['accepted', 'refused'])
h('h_identification_many', 'hparts', '1-300 lines of fourteen count/length pairs (one line of up to 4097 bytes) before the version line, outer bytes arbitrary; two ways of arriving', ['accepted'])
h('h_mutex_many', 'hparts', '5-33 (thorough 65) tasks waiting at once in three orders, one of them dropped while waiting or none', ['finished'])
h('h_mutex', 'hparts', 'three (thorough four) tasks, one of them taking the lock twice, holding it across a suspension; every schedule, one spurious poll with the same or another waker, one task dropped at any point', ['dropped', 'finished'])
h('h_clients_two', 'hssh', 'two clients, nine steps each from the first byte to the end of a program, every interleaving with up to 3 (thorough 4) switches', ['both'])
h('h_clients_slow', 'hssh', 'the handler of one client takes its time (authentication or starting a program) while the other is at any step, programs write, or the client goes away; both select orders', ['gone', 'served'])
h('h_clients_crowd', 'hssh', '34 (thorough 70) clients that stop at any one of nine steps, a third of them gone or not; before and after them others that are served, and one of them going on', ['served'])
h('h_clients_broken', 'hssh', 'two clients, the second breaking (closed, failing, malformed) after any step while the first is at any step; both select orders', ['survived'])
h('h_transport_chunks', 'hssh', 'a whole session, messages one by one or all at once; byte-wise, byte-wise with not-ready, or up to one (thorough two) short or delayed reads or writes anywhere', ['complete'])
h('h_transport_large', 'hssh', 'payloads of eight sizes 2040-34967 (packets up to 34996 bytes) with arbitrary outer bytes in key exchange, authentication and connection', ['kex', 'auth', 'data'])

h('h_scp_receive_dir', 'hscp', '0-2 files (thorough 3) into a directory; arbitrary ASCII names of 1-3 bytes and one of 200, 255 or 600; contents of seven sizes 0-32769 with arbitrary outer bytes; over older files or not; directories that exist or not, nested, absolute or the current one; sender waiting for each answer or sending everything at once; pipes and files at once or byte-wise', ['received'])
h('h_scp_receive_files', 'hscp', 'as many files as paths given (1-2), one less or one more; contents of seven sizes 0-32769; over older files or not; the same ways of sending', ['received'])
h('h_scp_names', 'hscp', 'file names: all of 0-2 bytes (thorough 0-3), all ASCII ones of 0-3 bytes, and 0-2 ASCII bytes after "../" or "a/../" or before "/x"', ['accepted', 'refused'])
h('h_scp_arbitrary', 'hscp', 'senders saying any 0-5 bytes (thorough 0-7), a transfer with any byte changed, any size field of 0-3 bytes, followed by a proper file or not', ['accepted', 'refused'])
h('h_scp_cut', 'hscp', 'two files, the sender gone after any byte, the disk full after any of 0-6 bytes, or either file ended by any other byte than zero; pipes and files at once or byte-wise', ['proper', 'failed'])
h('h_scp_send', 'hscp', '1-2 files of nine sizes 0-70001, arbitrary ASCII names of 1-3 bytes; the receiver refusing with any byte at any point or never; pipes and files at once or byte-wise', ['sent', 'refused'])
h('h_scp_send_names', 'hscp', '2 files, one of which has a name of 1-3 arbitrary bytes, valid UTF-8 or not, after a fixed prefix or not', ['sent', 'refused'])
h('h_scp_many', 'hscp', '12 (thorough 40) files of seven sizes 0-1001, or 3 of twelve sizes 65535-300002, received or sent; the other side refusing, or the disk full, at any of them or never', ['sent', 'refused', 'received', 'failed'])
h('h_scp_huge', 'hscp', 'announced or actual sizes around 2^16, 2^31, 2^32, 2^33, 2^63, 2^64, 2^70 with a few bytes of content', ['failed', 'sent'])
h('h_scp_errors', 'hscp', 'missing files, unknown flags, wrong numbers of paths, directories in place of files and files in place of directories', ['reported'])

h('h_sshd_login', 'hsshd', 'the whole daemon and one client; user names of 0-2 (thorough 0-3) arbitrary bytes and of 300; with or without a key query before; none, passwords of 0-3 bytes, key queries, signed requests with every key and signature, eight wrong lengths, algorithm names with any byte changed, one more or less at either end, and five others, queried or signed with', ['granted', 'forged', 'none', 'password', 'algorithm', 'length', 'query'])
h('h_sshd_second', 'hsshd', 'one client tries with any key and signature and stays or leaves; then (or connected before) another with 1-2 (thorough 1-3) of none, password, query of that key, the same signature, any signature for the same or any key; same user or any of one byte', ['granted', 'forged'])
h('h_sshd_run', 'hsshd', 'shell (SHELL unset, a path, any 2 bytes, with spaces, 400 bytes) or a command: empty, any 1-2 bytes (thorough 1-3), words with arbitrary separators, 300 bytes, 60 words, 6000 bytes of 400 words; starting or failing; any input, output, exit code and signal', ['failed', 'exited', 'killed'])
h('h_sshd_two', 'hsshd', 'shell and command at once in either order, ending in either order', ['both'])
h('h_sshd_long', 'hsshd', '8 (thorough 20) refused attempts of any two of four kinds, then as many programs one after the other or overlapping, a third of which cannot start; one client or two', ['refused', 'ran'])
h('h_sshd_accept', 'hsshd', '1-3 connections in a row that cannot be accepted, before the first or the second client', ['served'])

h('h_ignored', 'hssh', 'a connection from the first message to the end of a program, with 1-2 (thorough 1-3) messages at one of six stages: IGNORE and DEBUG with 0-5 arbitrary bytes, UNIMPLEMENTED with any number, after authentication also authentication requests of seven kinds, window adjustments of any channel, closes of any other channel; one by one or together with what follows; handlers done at once or later', ['quiet'])
h('h_program_kinds', 'hssh', 'shell or exec (commands of 0, 3, 300 bytes), reply wanted or not, before it a request that is not supported, data, EOF, both or nothing, input sent along or later, with and without a standard input, EOF or not, output and any exit status in steps or at once; any client channel number; handlers done at once or later', ['reply', 'no reply'])
h('h_mpint', 'hcore', 'integers of signatures: 1-66 bytes (eight lengths) with any number of leading zeroes and two arbitrary bytes after them; layout, every buffer size, decoded again', ['encoded', 'exact', 'roundtrip'])

UF = 'cryptographic primitives are uninterpreted functions: the check decides which bytes, keys, nonces and counters they are applied to, not their strength or their own implementation'
IO = 'futures-util (select, join, buffered reading) is a small model crate with the same interface; the executor polls the server only when it was woken'
STD = 'arguments, standard input and output (line-buffered), files, directories and exit are models in place of those of std; the program source is taken in unchanged but for `std::` leading to the models'
DAEMON = 'sockets, programs, the SHELL variable, random bytes and ed25519 signature verification (an uninterpreted predicate of key, message and signature) are models; the daemon source is taken in unchanged but for the paths leading to them'

PROPS = {
    'C01': dict(harnesses=['h_decode_transport', 'h_decode_auth', 'h_decode_channel', 'h_decode_unknown', 'h_decode_kexinit', 'h_decode_ecdhreply', 'h_decode_userauth', 'h_decode_large']),
    'C02': dict(harnesses=['h_roundtrip', 'h_roundtrip_large', 'h_mpint']),
    'C03': dict(harnesses=['h_layout', 'h_layout_large', 'h_fits', 'h_fits_large', 'h_mpint']),
    'C04': dict(harnesses=['h_session_decode', 'h_session_names', 'h_session_roundtrip', 'h_session_roundtrip_large']),
    'C05': dict(harnesses=['h_names', 'h_names_long', 'h_ascii', 'h_string', 'h_ident_len']),
    'C06': dict(harnesses=['h_wrap_all_lengths', 'h_wrap_content', 'h_kex_exchange', 'h_transport_chunks']),
    'C07': dict(harnesses=['h_wrap_raw', 'h_kex_wire', 'h_kex_length']),
    'C08': dict(harnesses=['h_seal', 'h_open', 'h_lockstep', 'h_cipher_large'], assumptions=[UF]),
    'C10': dict(harnesses=['h_kex_exchange', 'h_kex_secret', 'h_long_skipped', 'h_clients_two'], assumptions=[UF, IO]),
    'C11': dict(harnesses=['h_kex_negotiate', 'h_long_skipped'], assumptions=[UF, IO]),
    'C12': dict(harnesses=['h_kex_malformed', 'h_kex_wire', 'h_kex_length', 'h_kex_cut'], crash=['h_kex_exchange', 'h_kex_negotiate', 'h_long_skipped', 'h_identification', 'h_identification_lines', 'h_identification_long', 'h_identification_many'], assumptions=[UF, IO]),
    'C13': dict(harnesses=['h_auth_gate', 'h_auth_service', 'h_long_auth', 'h_large_auth', 'h_auth_query', 'h_auth_arbitrary', 'h_auth_lengths', 'h_clients_two'], assumptions=[UF, IO]),
    'C14': dict(harnesses=['h_auth_sign', 'h_auth_query', 'h_long_skipped'], assumptions=[UF, IO]),
    'C15': dict(harnesses=['h_auth_arbitrary', 'h_auth_lengths', 'h_auth_wire', 'h_conn_arbitrary', 'h_conn_mutated', 'h_conn_end', 'h_conn_cut'], crash=['h_auth_gate', 'h_auth_sign', 'h_auth_query', 'h_auth_service', 'h_long_auth', 'h_large_auth', 'h_channel_numbers', 'h_channel_types', 'h_channel_requests', 'h_request_many', 'h_conn_unknown', 'h_long_channels', 'h_large_requests', 'h_many_channels', 'h_channel_stdin', 'h_channel_many', 'h_channel_stdin_broken', 'h_long_input', 'h_session_output', 'h_session_close', 'h_session_late', 'h_session_broken', 'h_session_blocked', 'h_window', 'h_transport_large'], assumptions=[UF, IO]),
    'C16': dict(harnesses=['h_channel_numbers', 'h_channel_types', 'h_channel_requests', 'h_request_kinds', 'h_request_many', 'h_conn_unknown', 'h_long_channels', 'h_long_unknown', 'h_large_requests', 'h_many_channels', 'h_long_skipped', 'h_session_late', 'h_session_blocked', 'h_program_kinds'], assumptions=[UF, IO]),
    'C17': dict(harnesses=['h_channel_stdin', 'h_channel_many', 'h_channel_stdin_broken', 'h_long_input', 'h_window', 'h_program_kinds'], assumptions=[UF, IO]),
    'C18': dict(harnesses=['h_session_output', 'h_session_prompt', 'h_session_two', 'h_session_close', 'h_long_output', 'h_session_broken', 'h_session_late', 'h_session_blocked', 'h_clients_slow', 'h_program_kinds'], assumptions=[UF, IO]),
    'C19': dict(harnesses=['h_window', 'h_window_peer', 'h_long_input'], assumptions=[UF, IO]),
    'C20': dict(harnesses=['h_identification', 'h_identification_lines', 'h_identification_long', 'h_identification_many', 'h_kex_exchange']),
    'C21': dict(harnesses=['h_clients_two', 'h_clients_slow', 'h_clients_crowd', 'h_clients_broken', 'h_conn_cut', 'h_kex_cut'], assumptions=[UF, IO]),
    'C22': dict(harnesses=['h_transport_chunks', 'h_transport_large', 'h_large_auth', 'h_large_requests', 'h_long_input', 'h_long_output', 'h_session_blocked'], assumptions=[UF, IO]),
    'C23': dict(harnesses=['h_mutex', 'h_mutex_many', 'h_session_two', 'h_session_blocked']),
    'C24': dict(harnesses=['h_scp_receive_dir', 'h_scp_receive_files', 'h_scp_cut', 'h_scp_many', 'h_scp_errors', 'h_scp_huge', 'h_scp_names'], assumptions=[STD]),
    'C25': dict(harnesses=['h_scp_names', 'h_scp_arbitrary', 'h_scp_huge'], crash=['h_scp_receive_dir', 'h_scp_receive_files', 'h_scp_cut', 'h_scp_many'], assumptions=[STD]),
    'C26': dict(harnesses=['h_scp_send', 'h_scp_send_names', 'h_scp_many', 'h_scp_huge', 'h_scp_errors'], assumptions=[STD]),
    'C27': dict(harnesses=['h_sshd_login', 'h_sshd_second', 'h_sshd_long'], crash=['h_sshd_run'], assumptions=[DAEMON, UF, IO]),
    'C28': dict(harnesses=['h_sshd_run', 'h_sshd_two', 'h_sshd_long', 'h_sshd_accept'], assumptions=[DAEMON, UF, IO]),
    'C29': dict(harnesses=['h_ignored', 'h_conn_unknown', 'h_long_unknown', 'h_long_skipped', 'h_auth_service'], assumptions=[UF, IO]),
    'C09': dict(harnesses=['h_derive', 'h_kex_exchange', 'h_kex_secret'], assumptions=[UF]),
}

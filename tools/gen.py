#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
FS, LIB, HS, IO, FUT = ("protocol/src/" + x for x in ("fschacha20poly1305.rs", "lib.rs", "handshake.rs", "io.rs", "futures.rs"))
TL, TIO, TF = ("traffic/src/" + x for x in ("lib.rs", "io.rs", "futures.rs"))


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe)),
                  _t=technique, _n=note))


prop("C01", "Only authenticated plaintext is ever delivered",
     "Whenever a decryption, a session read or a handshake step reports success, the returned contents are the plaintext of exactly the "
     "ciphertext that was supplied or received (all of it except its last 16 bytes), and its last 16 bytes verified as the authentication tag "
     "under the session's receiving key, the current packet nonce and the associated data the caller gave. A packet whose tag does not verify "
     "is reported as an error and its bytes are never delivered.",
     ["inputs", "histories"], "every ciphertext, tag, associated data and buffer size; every position in the packet stream",
     "Tests decrypt honest packets and a handful of corrupted ones; they cannot try every corruption position, length and interface.",
     [LIB, FS, HS, IO, FUT],
     [("authenticated decryption of one packet", LIB + " InboundCipher::decrypt*"), ("tag check before success", FS + " FSChaCha20Poly1305::decrypt"),
      ("session readers", IO + " / " + FUT + " ProtocolReader::read")],
     "abstract interpretation of MIR (value provenance on every success path)",
     "All success paths of all decrypting entry points are covered; trusts the AEAD crate's decrypt to verify the tag.")

prop("C02", "Both sides' garbage is authenticated exactly once, in the first packet",
     "The first encrypted packet sent after the garbage terminator (a decoy if any, otherwise the version packet) carries exactly the garbage "
     "that was sent before the terminator as associated data, and no later packet does. On the receiving side exactly the bytes received between "
     "the peer's key and its terminator are the associated data of the first packet and of no later one, so a handshake cannot complete if any garbage byte was altered.",
     ["inputs", "histories"], "every garbage content and length on both sides, every number and size of decoys, every chunking of the stream",
     "Tests use three garbage strings and at most two decoys; association of garbage with exactly the first packet is a property of all combinations.",
     [HS, IO, FUT],
     [("sender AAD", HS + " send_version"), ("receiver AAD", HS + " receive_garbage, receive_version")],
     "abstract interpretation of MIR (associated-data provenance, loop invariant over the decoy list)",
     "Covers all decoy counts through an inductive loop invariant; trusts the AEAD crate.")

prop("C03", "The handshake can only be walked forward, once, and completely",
     "A program that skips, repeats, reorders or reuses a step of the handshake, that forges an intermediate handshake state, or that obtains packet "
     "ciphers without a handshake having completed, does not compile. Session ciphers come into a caller's hands only from a handshake "
     "that authenticated a genuine version packet.",
     ["programs"], "every program written against the public API",
     "Tests are programs that compile; that all misuses fail to compile is a statement about the programs that do not exist.",
     [HS, LIB, IO, FUT],
     [("consuming transitions", HS + " Handshake<State>"), ("private constructors", LIB + " CipherSession::new")],
     "type-level: compile-fail witnesses with compiling twins, type query over what exported functions can hand out, and abstract interpretation of the functions that do",
     "Witness programs plus closure rules over the public API surface and all construction sites; trusts rustc's move and privacy checking.")

prop("C04", "Session keys are derived as specified, separated by purpose, role and network",
     "Each session secret (session id, two length keys, two packet keys, two garbage terminators) is a distinct HKDF-SHA256 expansion of the key "
     "exchange result, salted with the protocol label followed by the caller's network magic and labelled as BIP324 prescribes, with the initiator's public "
     "key always first. The initiator sends with the initiator keys and terminator and receives with the responder ones, and the responder exactly mirrors this.",
     ["inputs", "configurations"], "every key pair, remote key, network magic and role",
     "A self-consistent mistake on both sides passes every round-trip test, and known-answer tests cover one magic and one role.",
     [LIB, HS], [("derivation", LIB + " SessionKeyMaterial::from_ecdh"), ("role assignment", LIB + " CipherSession::new"), ("transcript order", HS + " receive_key, send_version")],
     "abstract interpretation of MIR (term-valued provenance of every key, compared with the BIP324 table)",
     "Complete over inputs; the oracle is the BIP324 derivation table; trusts the HKDF and ElligatorSwift crates.")

prop("C05", "No keystream or nonce is ever reused; rekeying every 224 packets, for any length",
     "For every packet number n of a direction, the packet is sealed or opened with nonce (n mod 224, n div 224) under the key obtained by n div 224 rekeyings, where "
     "the next key is the encryption of 32 zero bytes under the reserved nonce, and the length prefix with the n-th 3 keystream bytes of the current length key, "
     "rekeyed from the following keystream after every 224 packets. Sender and receiver follow the same schedule and no counter is truncated, so no (key, nonce) or keystream position repeats however long the session.",
     ["histories", "inputs"], "every packet count up to 2^64 and every mixture of packets",
     "Tests run at most a few hundred packets; a counter that wraps at 2^8, 2^16 or 2^32, or a rekey that drifts, needs histories no test can run.",
     [FS, LIB], [("packet nonce and rekey", FS + " FSChaCha20Poly1305"), ("length keystream and rekey", FS + " FSChaCha20")],
     "abstract interpretation of MIR with an inductive counter invariant (Houdini over linear templates)",
     "Inductive over the number of packets; assumes fewer than 2^64 packets per direction; trusts the ChaCha20 crate.")

prop("C06", "Rejected operations leave the ciphers untouched; accepted ones advance them once",
     "An encryption or decryption that returns an error leaves the cipher in the state it had before the call, so a corrupt, truncated or oversized packet cannot desynchronise the "
     "session and the same genuine packet can still be processed afterwards. An operation that returns success advances the packet and (for sending) the length cipher of that direction exactly once and touches nothing of the other direction.",
     ["inputs", "histories"], "every failing and succeeding call in every cipher state",
     "Tests check a few error returns but not that each of them leaves every counter and key unchanged, in every state including rekey boundaries.",
     [LIB, FS], [("validate before effect", LIB + " InboundCipher / OutboundCipher"), ("advance after success", FS + " encrypt, decrypt, crypt")],
     "abstract interpretation of MIR (frame condition on the cipher state per exit path)",
     "All exit paths of all cipher entry points; trusts the AEAD crate not to modify its key.")

prop("C07", "No bytes from the network can make the receiving side panic",
     "Whatever bytes the remote peer or transport delivers, in whatever chunks, every receiving operation (handshake steps, packet length decryption, packet decryption, session reads and access to what they return) "
     "returns a value or an error and never panics, overflows or indexes out of bounds.",
     ["inputs"], "every byte sequence and chunking a peer or transport can deliver, and every buffer length a caller passes to a decrypting call",
     "Fuzzing and tests sample byte strings; absence of a panicking one is a statement about all of them, also at 2^24-sized lengths.",
     [LIB, HS, IO, FUT], [("size validation", LIB + " validate_ciphertext_size"), ("window search", HS + " split_garbage"), ("readers", IO + ", " + FUT)],
     "abstract interpretation of MIR (interval/linear invariants at every panic site)",
     "Every panic edge in the analysed call graph is shown unreachable, except 64-bit packet counter exhaustion.")

prop("C08", "Memory use driven by the remote peer is bounded",
     "An unauthenticated or malicious peer cannot make the library allocate more than about 4 MB (the documented 4,000,014-byte plaintext limit plus overhead) for a packet before it is authenticated, "
     "nor more than the garbage limit plus one read chunk for handshake garbage: longer announcements end in an error instead of an allocation. Packets whose plaintext is within the limit are not refused for their size by the session readers.",
     ["inputs", "histories"], "every announced length (0 to 2^24-1) and every garbage stream",
     "Tests try one oversized decoy; they cannot observe allocation sizes for all announced lengths nor the growth of the garbage buffer over all chunkings.",
     [IO, FUT, LIB], [("limit check before allocation", IO + ", " + FUT + " handshake and ProtocolReader::read"), ("vector decryption limit", LIB + " decrypt_to_vec")],
     "abstract interpretation of MIR (upper bound of every allocation and growth size)",
     "Every allocation site reachable with a remotely controlled size is bounded by a proved linear inequality.")

prop("C09", "Packet lengths are represented faithfully",
     "A successfully sealed packet announces exactly the length of its contents in its 3-byte prefix and consists of exactly 20 bytes more than the contents; contents that do not fit 3 bytes are refused with an error before any state changes. "
     "The announced length a receiver decodes is the little-endian 3-byte value plus 17, and the helper functions that size buffers agree with these numbers for every length.",
     ["inputs"], "every contents length from 0 upwards",
     "Tests seal short contents; truncation of a length needs contents over 16 MB, and off-by-one agreement between sizing helpers must hold for all lengths.",
     [LIB, HS, IO, FUT], [("length prefix", LIB + " OutboundCipher::encrypt, InboundCipher::decrypt_packet_len"), ("sizing helpers", LIB + " encryption_buffer_len, decryption_buffer_len")],
     "abstract interpretation of MIR (linear relations between lengths, byte provenance of the prefix)",
     "Complete over lengths on 64-bit targets; trusts the keystream crate.")

prop("C10", "Every message is written whole, in order, and flushed",
     "A write that reports success has handed every byte of the sealed packet to the transport, in order and nothing else, even when the transport accepts only part at a time, and has flushed it. "
     "The handshake likewise writes its key message and its version message completely, and flushes each before it waits for the peer, so that two buffered peers cannot deadlock.",
     ["inputs", "fault_sequences"], "every split of writes by the transport, every error position, every contents",
     "Test transports accept whole writes and are unbuffered; partial writes and buffered writers never occur in them.",
     [IO, FUT, TIO, TF], [("write_all then flush", IO + ", " + FUT + " ProtocolWriter::write, handshake")],
     "abstract interpretation of MIR (event order on every path: sealed bytes, complete writes, flush before wait)",
     "All paths of all writers; trusts write_all/flush of std and tokio.")

prop("C11", "No byte is lost, duplicated or reordered when the handshake hands over",
     "The session after the handshake reads exactly the bytes the transport delivered after the end of the handshake, in order: bytes already read past the garbage terminator or in the same chunk "
     "are delivered first, then the transport, for every chunking. The same holds when the reader is taken apart or when reads are smaller than the bytes left over.",
     ["inputs", "schedules"], "every chunking of the incoming stream, every garbage length, every size of subsequent reads",
     "Tests use one chunking with one extra byte; the hand-over must be right for all positions of the terminator within a chunk and all read sizes.",
     [IO, FUT], [("left-over bytes", IO + ", " + FUT + " handshake"), ("session reader", IO + ", " + FUT + " ProtocolSessionReader")],
     "abstract interpretation of MIR (stream positions: contiguity of consumed, left-over and future bytes)",
     "All chunkings via symbolic read sizes and loop invariants; trusts std's Chain and Cursor.")

prop("C12", "An asynchronous read can be cancelled at any point without losing data",
     "If a pending asynchronous session read is dropped at any suspension point and a new read is started, the new read continues where the first stopped: no byte taken from the transport is lost, "
     "no length is decrypted twice, and the next packet is delivered as if nothing had been cancelled.",
     ["schedules", "crash_points"], "every suspension point of every read, any number of cancellations, every chunking",
     "Tests never cancel a read; the set of suspension points and chunkings is unbounded.",
     [FUT], [("state kept in the reader, not in the future", FUT + " ProtocolReader::read")],
     "abstract interpretation of the coroutine MIR (restart equivalence at every yield point)",
     "Every suspension point is compared with a restart from the suspended state; trusts that a single transport read is itself cancel safe (tokio documents it).")

prop("C13", "Synchronous and asynchronous interfaces behave identically",
     "For the same incoming bytes, arguments and transport results the blocking and the asynchronous handshake, read and write take the same protocol steps up to their result: the same bytes are sent and flushed before the peer is waited for, the same bytes consumed, the same limits enforced, "
     "the same results returned, and failures reported as the same error with the same suggestion (an end of stream as one of the end-of-stream error kinds, with the same suggestion).",
     ["inputs", "fault_sequences"], "every input stream, chunking, argument and transport fault",
     "Each implementation is tested separately with its own inputs; nothing compares them on all inputs.",
     [IO, FUT], [("two implementations of one protocol", IO + " / " + FUT)],
     "abstract interpretation of both MIR bodies and comparison of all observable protocol transitions",
     "All paths of both implementations reduced to observable transitions (step, what it is given, what is owed, packet lengths); the two sets must be equal. Suspension and slicing of transport operations abstracted.")

prop("C14", "V1 peers are recognised and retry advice is given exactly when appropriate",
     "A remote key message that begins with the network magic is reported as a V1 peer before any key is derived from it, and no other message is. A transport error suggests retrying with V1 exactly when the peer reset, aborted or closed the connection "
     "(connection reset, connection aborted, unexpected end of file), and end of stream during the handshake is always such an error.",
     ["inputs", "fault_sequences"], "every 64-byte message and magic; every transport error kind at every point",
     "Tests exercise one magic and few error kinds; a suggestion flipped for one kind or position passes them.",
     [HS, IO, FUT], [("magic comparison", HS + " receive_key"), ("suggestion", IO + " From<io::Error> for ProtocolError, eof")],
     "abstract interpretation of MIR (path conditions of each outcome, enumeration of all error kinds)",
     "All paths and all error kinds.")

prop("C15", "Garbage of up to 4095 bytes is accepted, more is refused, on both sides",
     "Sending accepts any garbage of at most 4095 bytes and refuses longer garbage with an error. Receiving finds the first occurrence of the peer's terminator wherever it starts within the first 4095 positions "
     "or directly after them, reports exactly the garbage and terminator as consumed, asks for more data as long as the terminator could still come, and fails as soon as 4111 bytes contain none.",
     ["inputs"], "every garbage length, terminator position and amount of data received so far",
     "Boundary tests sample a few lengths and never a terminator at the last allowed position split over chunks.",
     [HS, IO, FUT], [("sending limit", HS + " send_key"), ("terminator search", HS + " receive_garbage")],
     "abstract interpretation of MIR (linear path conditions of each outcome, search-loop invariant)",
     "Complete over lengths and positions; the search is modelled by its contract (first match of a window scan) or an inductive loop invariant.")

prop("C16", "The decoy flag is the top bit of the header, and nothing else is",
     "A received packet is a decoy exactly if the most significant bit of its authenticated header byte is set, whatever the other bits are, for every decrypting interface and for the handshake's choice between decoy and version packet. "
     "Sealed packets carry header 128 for decoys and 0 for genuine packets, and payload objects report the same type.",
     ["inputs"], "all 256 header bytes, all interfaces",
     "Tests only ever produce headers 0 and 128; reserved bits are set by no test.",
     [LIB, HS, IO], [("header decoding and encoding", LIB + " PacketType")],
     "abstract interpretation of MIR, enumerating all 256 header values",
     "Complete over header bytes.")

prop("C17", "Traffic shaping never alters, drops or reorders the genuine stream",
     "With any shaping configuration, every payload a caller writes successfully is sent exactly once, unmodified, with its own type, in call order, and everything the shaping adds is a separate decoy packet. "
     "Each packet is sealed and written in one exclusive step, so that packets reach the wire in the order in which they were sealed even while decoys are sent in the background, and reading delivers what the session reader delivers.",
     ["schedules", "inputs", "configurations"], "every interleaving of writers and background decoys, every payload and configuration",
     "Tests run one schedule; interleavings of background decoys with writes cannot be enumerated by them.",
     [TL, TIO, TF], [("one lock / one task around seal and write", TIO + " WriterState; " + TF + " writer_task"), ("padding is a separate decoy", TL + " TrafficShaper::pad")],
     "abstract interpretation of MIR plus a lock-scope and single-owner analysis of the writer",
     "All paths of writers and background workers; trusts Mutex and channel semantics.")

prop("C18", "Background decoy workers end with the connection and never deadlock",
     "When the shaped writer is dropped the background worker stops and, for the threaded version, has stopped before the drop returns; no lock is held while waiting for it. A worker that cannot get the writer at once skips its turn instead of blocking, and nothing the worker does can block a drop for longer than one check interval plus one write.",
     ["schedules"], "every interleaving of drop, write and background activity",
     "Tests drop one idle connection; a worker that outlives its connection or a lock-order problem shows only under particular schedules.",
     [TIO, TF], [("shutdown flag and join", TIO + " Drop, decoy_thread"), ("channel closure", TF + " writer_task")],
     "lock, flag and channel effect analysis over MIR (every cycle of the worker tests termination)",
     "All cycles of the worker bodies; trusts Mutex, thread and channel semantics.")

prop("C19", "Shaping stays within its limits and Disabled means nothing is sent",
     "Generated handshake garbage is at most 4095 bytes, all of them from the random generator since they travel in the clear; there are at most three handshake decoys, and generated decoys and padding are decoy packets with 1 to 1024 bytes of contents. With a strategy disabled, that strategy generates no garbage, no decoys and no padding at all, and the default configuration disables both.",
     ["inputs", "configurations"], "every configuration and every output of the random generator",
     "Tests sample a few random draws; bounds must hold for all of them.",
     [TL], [("ranges of random sizes", TL + " TrafficShaper")],
     "abstract interpretation of MIR (interval of every generated size, per configuration variant)",
     "All random outcomes via intervals.")

prop("C20", "Traffic statistics count every packet exactly once, atomically",
     "Each payload read, each payload written and each generated decoy, padding or garbage is recorded exactly once with its contents length in the matching counters and marks the time of the last activity, and a failed read records nothing. Counters are updated by single atomic read-modify-write operations, "
     "so concurrent recording never loses an update, and with a system clock set after 1970 the ratio and idle-time queries never divide by zero, underflow or panic.",
     ["schedules", "inputs"], "every interleaving of recording threads and every sequence of reads and writes",
     "Lost updates need a particular interleaving of two threads; tests record from one.",
     [TL, TIO, TF], [("atomic counters", TL + " AtomicTrafficStats"), ("recording sites", TL + " TrafficShaper; " + TIO + ", " + TF)],
     "effect analysis over MIR (atomic operations and recording events per path)",
     "All paths; trusts the atomics of the platform.")

prop("C21", "Session secrets come only from the supplied cryptographic randomness",
     "The secret key of a handshake is exactly the 32 bytes obtained from the random source given by the caller, or from the operating system seeded thread generator when none is given, freshly drawn once for every handshake. "
     "An unusable draw never yields a handshake, nothing else determines the key, and the key message sent to the peer is derived from that secret only.",
     ["inputs", "configurations"], "every random source and draw",
     "Tests use fixed seeds or real randomness and cannot see a key partly constant, reused or taken from another source.",
     [HS, LIB, TL], [("key generation", HS + " new, new_with_rng"), ("random sources", LIB + " FillBytes")],
     "abstract interpretation of MIR (taint/provenance from the random source to the secret key)",
     "All paths; trusts rand's thread generator and the caller's source.")

prop("C22", "Secrets cannot leak through formatting, errors or public state",
     "No key, garbage terminator, secret key or plaintext is reachable through a public field, a debug or display rendering, or an error value, and the crates print nothing. Of what a handshake derives only the session id is public.",
     ["programs", "inputs"], "every program using the API, every value",
     "Tests do not enumerate the trait implementations and fields of all types.",
     [LIB, HS, FS, IO, FUT, TL, TIO, TF], [("private fields, no Debug on secret holders", LIB + ", " + HS + ", " + FS)],
     "abstract interpretation classifying every field as key, plaintext or public; backward dataflow over MIR from every formatting, panic and error sink; type query over public fields and error types",
     "All functions of both crates in five feature sets; memory erasure and timing are out of scope.")

prop("C23", "The protocol core needs neither the standard library nor an allocator",
     "With default features off, the crate builds for targets without std and without an allocator: no function of the core reaches the standard library or allocates, while the whole handshake and both ciphers remain usable. Adding features only adds interface.",
     ["configurations"], "every feature configuration",
     "Host tests always link std, so a stray dependency on it goes unnoticed.",
     [LIB, HS, FS], [("no_std attribute and feature gates", LIB)],
     "query over the type-checked program per feature set (linked crates, allocation reachability, API inclusion)",
     "Exact for the analysed feature sets.")

prop("C24", "No failure is swallowed or turned into success",
     "If a transport read, write or flush, a decryption, an encryption or a handshake step fails, the operation the caller invoked returns an error and does not continue as if it had succeeded; a premature end of stream is an error too. "
     "An input/output error reaches the caller unchanged. The only exceptions are best-effort background decoys.",
     ["fault_sequences", "inputs"], "a failure of any single operation at any point of any call",
     "Tests inject few faults; each call site has its own failure path.",
     [IO, FUT, TIO, TF, HS, LIB], [("error propagation", IO + ", " + FUT + ", " + TIO + ", " + TF)],
     "abstract interpretation of MIR (every path with a failing operation must return an error carrying it)",
     "All failing operations on all paths.")

prop("C25", "Buffer size errors are exact, and never partial",
     "An operation given an output buffer refuses it exactly when it is smaller than required, the error states exactly the required size, and a buffer of that size is always sufficient. "
     "Refused calls write nothing to the buffer, and accepted ones write exactly the required bytes and leave the rest of the buffer untouched.",
     ["inputs"], "every contents, decoy list, garbage and buffer length",
     "Tests try single sizes; exactness at the boundary must hold for all combinations of lengths.",
     [LIB, HS], [("size checks", LIB + " encrypt, decrypt; " + HS + " send_key, send_version")],
     "abstract interpretation of MIR (linear path conditions of acceptance and refusal, buffer frame condition)",
     "Complete over lengths; the sum over the decoy list is handled by an inductive prefix-sum invariant.")

prop("C26", "Sessions are independent: safe code only and no shared mutable state",
     "Nothing in the crates bypasses the compiler's memory and thread safety, and no two connections share mutable state, so no sequence of calls on one connection, or concurrent use of several, can corrupt memory or influence another connection. "
     "The two halves of a split connection can be used from different threads.",
     ["programs", "schedules"], "every program and schedule using any number of connections",
     "Tests run few connections; absence of unsafe code and global state is a property of the whole source.",
     [LIB, HS, FS, IO, FUT, TL, TIO, TF], [("safe Rust, owned state", "all source files")],
     "query over the type-checked program (unsafe operations, statics, interior mutability, Send obligations)",
     "Exact over the sources of both crates for the analysed feature sets.")



def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "sa", "props", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                               technique=p["_t"], level="other", level_note=p["_n"]))
        else:
            na.append(dict(property=p["id"], reason="machinery under construction"))
    m = dict(version=1, setup_cmd="python3 sa/extract.py", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", len(na), "not")


main()

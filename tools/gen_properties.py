#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": list(over), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": list(files),
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

CONN = "nbc/node/connection.py"; BASE = "nbc/node/basenode.py"; MSG = "nbc/protocol/messages.py"; FMT = "nbc/protocol/format.py"
NOTEST = "No test imports nbc.node or nbc.protocol; the suite only covers nbc/util/ecdsa. "

prop("N01", "Messages arrive intact, in order and exactly once",
 """For any sequence of well-formed messages of any kind sent on a peer connection, and however the transport splits, merges,
 delays or only partly accepts the bytes, the receiving node runs its message handlers for exactly those messages, with the
 field values that were sent, in sending order, each once. If the connection is cut part-way, what the handlers saw is a
 prefix of what was sent. The bytes on the wire are the Bitcoin-style frames (magic, 12-byte command, length, double-SHA256
 checksum, payload), so an independent implementation at either end understands and is understood.""",
 ["schedules", "fault_sequences", "inputs"],
 """Every message sequence, every segmentation, short write, short read, delay, stall and cut of the byte stream in both directions.""",
 NOTEST + "Segmentation, short writes and mid-frame cuts are schedule choices that a sampled unit test of a codec never makes.",
 [CONN, MSG, FMT],
 [("receive loop that peels whole frames off the buffer", CONN + ":handle_read"), ("partial-send bookkeeping", CONN + ":handle_write"),
  ("frame build and parse", MSG + ":Message.binary/parse/first_msg_len"), ("field codecs", FMT)],
 [("_send_buffer", "bytes queued and not yet accepted by the transport", CONN), ("_recv_buffer", "bytes read and not yet consumed as frames", CONN)],
 ["command_* handlers of the receiving node", "bytes on the simulated wire"])

prop("N02", "Damaged or foreign bytes never become messages",
 """Whatever bytes a peer sends, a node runs a message handler only for a complete frame that carries the network's magic, a
 correct checksum, a known command and a payload that holds every field in full; frames with a wrong magic, a wrong checksum or an unknown command are
 reported once each through the invalid-command callback and otherwise ignored. Every well-formed frame that follows on the same stream
 is still handled, and other connections are unaffected.""",
 ["inputs", "fault_sequences", "schedules"],
 """Every byte stream built from valid frames, corrupted frames (magic, command, length-consistent payload, checksum), truncated payloads
 with valid checksums, unknown commands and bit flips in transit, under every segmentation.""",
 NOTEST + "Corruption position combined with segmentation is a product space; nothing samples it today.",
 [CONN, MSG, FMT],
 [("magic, checksum and command checks", MSG + ":Message.parse"), ("per-frame error containment", CONN + ":handle_read"), ("field parsers", FMT + ":*.parse")],
 [], ["command_* handlers", "invalid_command callback"])

prop("N03", "One bad connection never takes the node down",
 """Whatever happens to a peer connection, or while opening or accepting one (refused, reset, timed out, unresolvable, half-open, closed at any
 point, stalled with unsent data, spurious readiness, file descriptors exhausted or numbered above 1023, urgent data, a message handler or callback that raises), the node's event loop keeps running and no other
 connection is closed or loses messages because of it. A connection on which nothing went wrong is never dropped. With nothing to do the loop waits and does not spin. Once faults stop, new inbound connections are accepted and complete
 their handshake within a bounded time.""",
 ["fault_sequences", "schedules"],
 """Every sequence of connection-level faults at every point of the connection life cycle, for any number of concurrent peers.""",
 NOTEST + "The failures need a particular fault at a particular point of the event loop.",
 [BASE, CONN],
 [("per-channel error handling", CONN + ":handle_error/handle_close"), ("read/write error handling", CONN + ":handle_read/handle_write"),
  ("outgoing connect error handling", BASE + ":add_peer"), ("accept path", BASE + ":handle_accept")],
 [("_peers", "map of file descriptor to channel, the event loop's watch list", BASE)], ["serve_forever returning or raising", "handshake of a fresh inbound peer", "messages on healthy connections"])

prop("N04", "Handshake tells each side who the other is",
 """Both ends of every established connection announce themselves with one version message as their first message, and, once no fault interferes,
 within a bounded time each end has received the other's acknowledgement and reports the protocol version, services, start height,
 user agent and relay flag that the other end announced. A connection reports itself acknowledged only if an acknowledgement arrived on it, and
 each received version message is acknowledged exactly once and triggers the connected callback once, after those values are readable.""",
 ["schedules", "fault_sequences", "configurations"],
 """All connection establishments, inbound and outbound, between nodes with arbitrary announced identities, under all delays, segmentations and cuts.""",
 NOTEST + "The handshake is a two-party concurrent exchange.",
 [CONN, BASE],
 [("version sent on construction", CONN + ":__init__"), ("version/verack bookkeeping", CONN + ":handle_message"), ("acknowledgement", BASE + ":command_version")],
 [("_verack", "acknowledged", CONN)], ["peer properties version/services/start_height/user_agent/relay/verack", "connected callback", "wire"])

prop("N05", "Idle connections are pinged, dead ones dropped, live ones kept",
 """By the node's own clock: a connection on which the peer has sent nothing for more than 3 hours (counted from its establishment if it never sent
 anything) is closed within one loop period, and one on which something arrived within the last 3 hours is never closed for idleness. A connection on which the node has sent nothing for more than 30
 minutes gets a ping, and pings of this kind on one connection are at least 5 minutes apart.""",
 ["schedules", "fault_sequences"],
 """All traffic patterns, stalls, non-reading peers, event-loop delays and forward clock steps over many simulated hours.""",
 NOTEST + "It takes hours of real time to reach either timer; only a simulated clock can.",
 [CONN], [("timer checks", CONN + ":readable")],
 [("_last_rx_time", "when something last arrived", CONN), ("_last_tx_time", "when something was last sent", CONN), ("_last_ping_time", "last keep-alive ping", CONN)],
 ["wire", "disconnected callback"])

prop("N06", "Every ping is answered by exactly its pong",
 """Each ping a node receives is answered on the same connection by exactly one pong carrying the same nonce, in the order the pings arrived, and
 pongs are sent for no other reason. Answers that fit are delivered however slowly the peer reads, unless the connection is lost.""",
 ["schedules", "fault_sequences", "histories"],
 """All interleavings of pings with other traffic over concurrent connections, with slow readers, short writes and cuts.""",
 NOTEST, [BASE, CONN, MSG], [("ping handler", BASE + ":command_ping"), ("send buffer", CONN + ":send_message/handle_write")], [], ["wire as seen by the peer"])

prop("N07", "The peer set has no duplicates, no self and respects its limits",
 """A node never opens a second connection to an address it is already connected (or connecting) to, nor to its own listening address. Automatic maintenance opens at most five
 connections per heartbeat, heartbeats are more than ten seconds apart, it opens none when the node already has as many peers as it seeks, and non-forced additions are refused at the
 maximum. A peer whose connection ended, for whatever reason, is no longer listed among the peers; the disconnected callback runs for it, and never for a peer that is still listed.""",
 ["schedules", "fault_sequences", "configurations"],
 """All histories of adds, removes, inbound connections, gossip, failures and heartbeats, for any limits.""",
 NOTEST, [BASE, CONN],
 [("add_peer guards", BASE + ":add_peer"), ("maintenance", BASE + ":heartbeat/add_any_peer"), ("close path", CONN + ":handle_close")],
 [("_peers", "channels", BASE)], ["connection attempts seen by the network", "node.peers", "disconnected callback"])

prop("N08", "A banned peer stays out for an hour",
 """A peer punished until its score exceeds five is disconnected at once, and for one hour by the node's clock every inbound connection from that peer's IP address, from whatever
 port, is refused, while other IP addresses are unaffected; after the hour it is accepted again. Each heartbeat lowers every connected peer's score by one, never below zero,
 and a peer whose score never exceeds five is never banned.""",
 ["histories", "schedules", "fault_sequences"],
 """All histories of punishments, heartbeats, disconnects, reconnects from new ports and clock advances.""",
 NOTEST + "It needs a reconnect from another port and an hour of simulated time.",
 [BASE, CONN], [("punish_peer", BASE), ("ban check on accept", BASE + ":handle_accept"), ("score decay", BASE + ":heartbeat")],
 [("_banned", "banned address to ban time", BASE), ("_banscore", "peer score", CONN)], ["inbound connections as seen by the peer", "peer.banscore"])

prop("N09", "Address gossip is truthful, bounded and freshest first",
 """A request for addresses is answered on the same connection with the known addresses, most recently seen first, at most 1000 of them; every address given was learned from a
 peer's address message or from a handshake completed by a peer, with the services and time last learned for it (for a handshake: the peer's announced services and
 the time it was last heard from), and an address whose connection has since ended is not given until it is learned again. At most 2500 addresses are kept, however many are received.""",
 ["histories", "schedules", "inputs"],
 """All interleavings of address messages, handshakes, disconnects and address requests from many peers.""",
 NOTEST, [BASE, MSG, FMT],
 [("address handlers", BASE + ":command_address/command_get_address/command_version_ack"), ("removal", BASE + ":disconnected"), ("last heard from", CONN + ":timestamp")],
 [("_addresses", "address book", BASE)], ["addr replies on the wire"])

prop("N10", "A lying minority cannot change the node's idea of its address",
 """Unless it was set explicitly, the node's external IP is, after each version message it receives, the address reported by the largest number of currently connected peers, one vote per
 connection, and that is the address the node announces as its own on connections it opens or accepts next. An explicitly set external IP always wins.""",
 ["histories", "schedules", "fault_sequences"],
 """All orders of version messages, disconnects and reconnects among honest and lying peers.""",
 NOTEST, [BASE, CONN], [("majority vote", BASE + ":_check_external_ip"), ("announcement", CONN + ":__init__")],
 [("_guessed_external_ip", "current guess", BASE)], ["node.external_ip", "addr_from in version messages on the wire"])

prop("N11", "Traffic counters equal the bytes that crossed the wire",
 """At every moment a connection's received-byte count equals the bytes the transport has handed to it and its sent-byte count equals the bytes the transport has accepted from it, and the bytes accepted
 are exactly a prefix of the concatenated frames the node queued on that connection.""",
 ["schedules", "fault_sequences"],
 """All short reads, short writes, would-block results, resets and interleavings of connections.""",
 NOTEST, [CONN], [("counters", CONN + ":handle_read/handle_write")], [("_tx_bytes/_rx_bytes", "per-connection counters", CONN)], ["peer.rx_bytes", "peer.tx_bytes", "transport byte log"])

prop("N12", "A node short of peers finds its way back",
 """A node with fewer peers than it seeks keeps trying the addresses it knows, and the bootstrap seeds when it knows none: once faults stop, within a bounded time it is connected to every
 reachable listening address in its address book, or to as many as it seeks, no matter which dead, duplicate or own addresses are also in the book; and a node with
 bootstrap seeds and no known addresses reconnects to a reachable seed within a bounded time.""",
 ["fault_sequences", "schedules", "configurations"],
 """All partitions, crashes, restarts, dead addresses and gossip contents that precede the quiet period.""",
 NOTEST + "This is liveness over a cluster after a fault history.",
 [BASE, CONN], [("maintenance", BASE + ":heartbeat/add_any_peer/add_peer"), ("failed connects forgotten", BASE + ":disconnected")],
 [("_addresses", "address book", BASE), ("_bootstrap", "seeds", BASE)], ["connections seen by the network", "node.peers"])

prop("N13", "Only the node's own port mapping is made and removed",
 """A listening node that finds a gateway maps one free external port to its listening port while it serves, and when serving ends, normally or by an error, exactly the mapping
 it made is removed. No mapping that belongs to another device or port is ever replaced or removed, and a gateway that is absent, fails or refuses at any call never prevents the node from
 serving or from stopping.""",
 ["fault_sequences", "configurations", "histories"],
 """All pre-existing mapping tables and all failures of gateway calls at every step, over repeated starts and stops.""",
 "The test suite never touches nbc.node, and a real gateway cannot be made to fail on cue.",
 ["nbc/node/__init__.py", BASE], [("add/remove port mapping", "nbc/node/__init__.py:add_portmap/remove_portmap"), ("start and stop", BASE + ":serve_forever")],
 [("_upnp", "gateway handle", "nbc/node/__init__.py")], ["gateway mapping table"])

prop("N14", "Log verbosity never changes what a node does",
 """For the same inputs and schedule, a node behaves the same at every log level: the bytes it sends, the handlers it runs and their arguments, the connections it keeps and drops are
 identical whether it logs nothing or everything, and whether or not its log and the program's standard output can be written.""",
 ["configurations", "inputs", "schedules"],
 """All message kinds and contents (including malformed alerts), all log levels, all schedules.""",
 NOTEST + "It is a two-run property over whole executions.",
 [CONN, BASE, MSG, FMT], [("message logging", CONN + ":handle_message/send_message"), ("rendering", MSG + ":_debug, " + FMT + ":str")], [], ["wire transcript", "handler log"])

prop("N15", "Stopping releases the address and starting again works",
 """Once a node is told to stop through its loop hook, serving ends within one loop period and the node accepts no further connection; once it is closed, it accepts no further
 connection while established ones keep being served. After either, and after a crash, a new node can listen on the same address at once even with connections of the old one still winding down, whereas
 starting a second node on an address in use is refused with the address-in-use error and leaves the first undisturbed.""",
 ["crash_points", "schedules", "histories"],
 """All points at which stop, close or crash can fall relative to traffic, and all numbers of restarts.""",
 NOTEST, [BASE, "nbc/node/__init__.py"], [("serve_forever, close", BASE), ("address reuse", BASE + ":__init__")], [], ["listening sockets", "serve_forever return", "connect results"])

prop("N16", "A node serving in the background can be used from the program's threads",
 """Starting a node in the background returns within seconds, with the node serving in a thread that never keeps the program from ending. While it serves, any thread of the program may send messages on its
connections, read its list of peers and close it: a message sent on a connection that is not lost arrives exactly once and whole, those of one thread in the order it sent them; the first message on a connection is
always version; what peers send meanwhile is handled once, whole and in order; reading the list of peers never fails and never holds anything but connections; and closing the node ends neither the event loop nor an established connection.""",
 ["schedules", "histories"],
 """All interleavings, at every step of the code, of the event loop with one or more threads that send, read and close, and all traffic on the connections meanwhile.""",
 NOTEST, [BASE, "nbc/node/connection.py"], [("startServer, peers, close", BASE), ("send_message, handle_write", "nbc/node/connection.py")], [], ["frames on the wire", "handler calls", "exceptions", "threads alive"])

prop("U01", "The height poll is bounded, complete and isolated",
 """Polling block-height sources returns within the given timeout however many sources hang, fail, answer malformed data or answer late, whether or not a thread can be started for each of them or standard output can be written, and whatever the wall clock does meanwhile. The result holds, for every source
 that answered in time, the integer found at the source's documented place in its answer, and no integer for any source that did not; one bad source never affects another, nothing that happens after the return changes the result, and a source that hangs never keeps the program from ending.""",
 ["schedules", "fault_sequences"],
 """All interleavings of the polling threads, all response times, failures, malformed bodies and clock steps.""",
 "No test calls it; it needs real web sites and real seconds, and the interesting cases are thread interleavings around the deadline.",
 ["nbc/util/__init__.py", "nbc/coins/newbitcoin.py"], [("poll threads, lock and joins", "nbc/util/__init__.py:guess_block_height"), ("fetchers", "nbc/util/__init__.py:fetch_url_*")],
 [("result", "answers collected under the lock", "nbc/util/__init__.py")], ["returned mapping", "return time"])

prop("U02", "Seed lookup hands out each found address exactly once",
 """Whatever the interleaving of seed lookups and concurrent consumers, every address a lookup finds is handed out exactly once per lookup that found it and nothing else is ever handed out; the reported count is always the number found and not
 yet handed out. A lookup that fails, hangs or can not be started, or a standard output that can not be written, never delays or loses the others' results; creating the seeder never waits for a lookup, and a lookup that hangs never keeps the program from ending.""",
 ["schedules", "fault_sequences"],
 """All interleavings of lookup threads and consumer threads, all lookup delays and failures.""",
 "No test; races need particular thread interleavings.",
 ["nbc/util/bootstrap.py"], [("lock around the found list", "nbc/util/bootstrap.py:DNSSeeder")], [("_found", "found, not handed out", "nbc/util/bootstrap.py")], ["pop()", "len()"])

prop("W01", "A crash while saving never loses a wallet",
 """If the machine crashes at any point while a wallet is being saved over an existing wallet file, then after restart the file loads as exactly the old or exactly the new wallet. Once saving has returned, every later
 crash leaves the new wallet.""",
 ["crash_points", "fault_sequences", "histories"],
 """Every crash point inside every save of every history of saves, and every set of un-synced writes that the disk may have lost, torn or kept.""",
 "No test saves a wallet, and crash points and lost writes cannot be produced by a unit test.",
 ["nbc/wallet/__init__.py", "nbc/wallet/address.py", "nbc/wallet/hdwallet.py"], [("saveTo", "nbc/wallet/__init__.py"), ("loadFrom", "nbc/wallet/__init__.py")],
 [("wallet file", "the only durable copy of the private key", "nbc/wallet/__init__.py")], ["loadFrom after restart"])

prop("W02", "A failed save or load is reported and harms nothing",
 """If saving fails for any reason (full disk, I/O error, permission, no descriptors, bad passphrase type, interrupt at any file operation), the caller gets an exception, no partial copy is left behind (unless removing it fails too) and the wallet file still loads as what it held before (or as the new wallet when only a step after the completed replacement failed), and if saving
returns, the file loads as the new wallet. Loading either raises or returns exactly the wallet last saved, never changes the file, and a file that holds only part of a saved wallet is always refused. Neither leaves a file descriptor open, whatever failed (unless closing it fails, or an interrupt comes just as it is opened).""",
 ["fault_sequences", "histories"],
 """A failure at every file operation of every save and load, short writes and reads, every truncation point.""",
 "No test saves or loads a wallet; disk faults cannot be sampled by unit tests.",
 ["nbc/wallet/__init__.py"], [("saveTo/loadFrom", "nbc/wallet/__init__.py")], [], ["exceptions", "loadFrom"])

prop("W03", "Concurrent saves and loads see whole wallets",
 """When several threads or processes save to and load from one wallet file at the same time, every load returns exactly one of the wallets saved there, as an atomic register would: the latest completed save or one overlapping the load, and
the file finally holds one of the last saves in full. None of them fails because of the others.""",
 ["schedules"],
 """All interleavings of the file operations of concurrent saves and loads.""",
 "No test; it depends on where one caller's file operations fall between another's.",
 ["nbc/wallet/__init__.py"], [("saveTo/loadFrom", "nbc/wallet/__init__.py")], [], ["loadFrom results"])

prop("W04", "With a passphrase, no secret touches the disk in clear",
 """When a wallet is saved with a passphrase, at no moment, including after a crash or a failed save, does any file written contain the private key in any usual encoding or the passphrase. The saved wallet loads
 with that passphrase; when it is loaded without one the user is asked again until something is entered, and an interrupted prompt returns no wallet and leaves the file as it was.""",
 ["crash_points", "fault_sequences", "inputs"],
 """All wallets, all passphrases, all crash points and disk failures, all prompt behaviours.""",
 "No test; needs every intermediate disk state.",
 ["nbc/wallet/__init__.py", "nbc/wallet/address.py", "nbc/wallet/hdwallet.py", "nbc/util/pyaes/aes.py"],
 [("encryption of the key on dump", "nbc/wallet/address.py:_aesEncrypt"), ("prompt", "nbc/wallet/address.py:_aesDecrypt")], [], ["raw bytes of every simulated file", "loadFrom"])

prop("W05", "A wallet keeps its identity through any history",
 """Through any history of saving, loading (under file names given as text, bytes or path objects), crashing, restarting on other machines, exporting and importing extended keys and deriving children, a wallet's keys and addresses never depend on when, where or with what random
 state an operation ran: the loaded wallet has the saved wallet's address, public key, chain code, network and depth data and, if it had one, its private key, and the same path from the same seed and with the same vcn (which every operation keeps, and which is random only
when a wallet is made or imported without one) gives the same keys (as BIP32 defines them) and address everywhere. A watch-only wallet made from the extended public key or from a saved watch-only file derives the same non-hardened children's public keys as the full wallet and never holds a private key; signatures made by one verify in the other, and for no other data or values; wallet files written by the released version load as that wallet, and an exported key damaged on its way is refused.""",
 ["histories", "crash_points", "configurations"],
 """All histories of these operations over two machines with independent randomness, crashes and restarts.""",
 "No test touches the wallets; the failures depend on random state at derivation time and on which of many histories led to the wallet.",
 ["nbc/wallet/hdwallet.py", "nbc/wallet/address.py", "nbc/wallet/__init__.py", "nbc/util/key.py", "nbc/util/base58.py"],
 [("derivation", "nbc/wallet/hdwallet.py:child"), ("export/import", "nbc/wallet/hdwallet.py:to_extended_key/from_extended_key"), ("file form", "nbc/wallet/hdwallet.py:dump_to_cfg/load_from_cfg")],
 [("vcn", "number bound into the address, random unless given", "nbc/wallet/hdwallet.py")], ["addresses, public keys, signatures"])

prop("W06", "Keys and signature nonces come only from fresh OS entropy",
 """Two machines that share all program state (a fork or a cloned snapshot, equal pseudo-random generator state included) but get different operating-system entropy never generate the same private key or
 use the same signature nonce for different data, and no key ever signs two different messages with one nonce. If the entropy source fails, generating or signing raises and produces nothing, and works again once the source is back; every key and nonce is in the valid range.""",
 ["fault_sequences", "histories"],
 """All histories of generating and signing over cloned machines, failures of the entropy source at any call, extreme entropy values.""",
 "The tests use real randomness once per run and cannot clone state or fail the entropy source.",
 ["nbc/wallet/address.py", "nbc/util/ecc.py", "nbc/util/ecdsa/keys.py", "nbc/util/ecdsa/util.py"],
 [("key generation", "nbc/wallet/address.py:Address.generate"), ("nonce", "nbc/util/ecdsa/keys.py:sign_number"), ("range", "nbc/util/ecdsa/util.py:randrange")], [], ["generated keys", "signatures"])

prop("W07", "Saving never opens a wallet file to others",
 """Saving over an existing wallet file keeps its permissions, its group and its owner where the process may set them (when its group can not be kept, what that group was allowed goes to no other group), and at no moment of
a save, including after a crash or a failed save, does any file with the wallet's content let any user or group read or write it that could not do so with the wallet file. A new wallet file grants others no more than the process's
file creation mask allows.""",
 ["crash_points", "fault_sequences", "histories"],
 """All modes, masks, owners and groups, and a crash or failure at every file operation of every save of every history.""",
 "No test saves a wallet; the intermediate files and the states after crashes and failures are not reachable by a unit test.",
 ["nbc/wallet/__init__.py"], [("saveTo", "nbc/wallet/__init__.py")], [], ["file modes"])

PURE = "pure function: sampled by unit tests or not tested at all; holds for all inputs"

prop("W08", "Threads of one program do not disturb each other's wallet work",
 """While several threads of a program derive children from, export, import, sign and verify with, encrypt, save, load and convert shared and own wallets at the same time, every operation gives exactly what it gives when it runs alone, shared wallets
stay what they are, and an operation that fails affects no other.""",
 ["schedules", "histories"],
 """All interleavings of the steps of any such operations.""",
 "No test runs two threads; the failures depend on where one thread's steps fall between another's.",
 ["nbc/wallet/address.py", "nbc/wallet/hdwallet.py", "nbc/util/key.py", "nbc/util/ecc.py", "nbc/util/base58.py", "nbc/util/pyaes/aes.py"], [("HDWallet, Address", "nbc/wallet"), ("AES, base58, ecdsa", "nbc/util")], [], ["results of the operations"])

prop("C01", "Base58Check round-trips and detects errors",
 "Encoding then decoding any byte string with checksum gives it back, and a string with a changed character is refused.",
 ["inputs"], "All byte strings.", PURE, ["nbc/util/base58.py"], [("encode_check/decode_check", "nbc/util/base58.py")])
prop("C02", "Signatures verify exactly for their key and message",
 "A signature made by a private key over a message verifies with its public key over that message and with no other message or key; malformed signatures are refused.",
 ["inputs"], "All keys, messages and byte strings offered as signatures.", PURE, ["nbc/util/ecc.py", "nbc/util/ecdsa/ecdsa.py"], [("sign/verify", "nbc/util/ecc.py")])
prop("C03", "Curve arithmetic obeys the group laws on every supported curve",
 "Point addition, doubling and scalar multiplication agree with the group laws on all supported curves.",
 ["inputs"], "All points and scalars.", PURE, ["nbc/util/ecdsa/ellipticcurve.py", "nbc/util/ecdsa/numbertheory.py"], [("Point", "nbc/util/ecdsa/ellipticcurve.py")])
prop("C04", "AES modes match the standard for every key size",
 "Each AES mode encrypts as FIPS-197/SP800-38A define and decryption inverts it, for 128-, 192- and 256-bit keys.",
 ["inputs"], "All keys and texts.", PURE, ["nbc/util/pyaes/aes.py", "nbc/util/pyaes/blockfeeder.py"], [("AES", "nbc/util/pyaes/aes.py")])
prop("C05", "Split private keys recombine and reveal nothing short of the threshold",
 "A private key split into shares is given back by combining the required shares and by no smaller set.",
 ["inputs"], "All keys, share counts and share subsets.", PURE, ["nbc/util/piecewise.py"], [("split/combine", "nbc/util/piecewise.py")])
prop("C06", "Merkle roots, targets and difficulty follow the Bitcoin rules",
 "Merkle root, compact target and difficulty computations give the values the Bitcoin protocol defines.",
 ["inputs"], "All transaction lists and bit fields.", PURE, ["nbc/util/__init__.py"], [("get_merkle_root/get_target", "nbc/util/__init__.py")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')

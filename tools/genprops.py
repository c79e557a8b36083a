#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (edit here, not there)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- protocol
p("C01", "Received data reaches the reader in sequence order, each packet exactly once",
  "Within one connection the application's reader is handed the peer's data packets in sequence-number order and each exactly once, whatever order, duplication or loss the network applies. A packet ahead of sequence is held back until its predecessors have arrived, a packet behind the sequence (or already held) is discarded, and held packets are released as soon as the gap closes.",
  ["inputs", "histories"], "every arrival order, duplication and loss of the peer's data datagrams, at every position of the sequence counter",
  "TestReceiveQueue samples one 9-packet order at ids 0..4; arrival histories are unbounded.",
  ["tru.go", "receive_queue.go", "channel.go"],
  [("distance switch of the data case", "tru.go:serve"), ("release loop of the receive queue", "receive_queue.go:process"), ("expected number successor", "channel.go:newExpectedID"), ("single reader goroutine", "tru.go:readerProccess")],
  ["values sent to the reader goroutine", "calls of ReaderFunc callbacks"],
  [("Channel.expectedID", "next sequence number to hand over", "channel.go"), ("receiveQueue.ma", "held packets by number", "receive_queue.go")])
p("C02", "Every accepted data packet is acknowledged, and nothing else is",
  "Every data datagram that arrives on a live connection and decrypts is answered by one acknowledgement carrying that datagram's own sequence number, including duplicates and packets ahead of sequence. No acknowledgement is sent for a datagram that does not decrypt, that belongs to no connection, or that is not data.",
  ["inputs", "histories"], "every datagram content, status byte and arrival history",
  "Tests only see acknowledgements of the in-order happy path over loopback.",
  ["tru.go", "channel.go"], [("ack in the data case", "tru.go:serve"), ("ack writer", "channel.go:writeToAck")], ["packets handed to the sender goroutine with the ack status"])
p("C03", "Unacknowledged data stays recorded and is retransmitted until acknowledged",
  "A data packet is recorded as unacknowledged before it can reach the network, and only an acknowledgement that carries its number removes it from the record. While recorded it is sent again, unchanged, each time its retransmit time has passed, with that time and its attempt count moved forward; when the attempt limit is exceeded the whole connection is destroyed rather than the packet being dropped.",
  ["histories", "fault_sequences", "schedules"], "every loss pattern of data and acknowledgement datagrams and every interleaving of sender, timer and listener",
  "Loopback tests lose nothing, so the retransmit path is never required for them to pass.",
  ["send_queue.go", "channel.go", "tru.go"], [("record before transmit", "channel.go:writeTo"), ("retransmit timer", "send_queue.go:retransmit"), ("removal on ack", "tru.go:serve")],
  ["contents of the send queue", "packets handed to the sender goroutine"], [("sendQueue.queue/index", "unacknowledged packets", "send_queue.go")])
p("C04", "Packet status, number and payload survive the wire format",
  "For every status byte, every sequence number and every payload, decoding an encoded packet yields the same status, number and payload; the connection-handshake body likewise yields the same identifier and payload. A header that is cut short is rejected with an error instead of being decoded.",
  ["inputs"], "all 2^8 statuses x 2^20 numbers x all payloads",
  "TestPacStatusID encodes two values.",
  ["packet.go", "connect.go"], [("header packing", "packet.go:packStatID"), ("header unpacking", "packet.go:unpackStatID"), ("byte order and layout", "packet.go:MarshalBinary/UnmarshalBinary"), ("handshake body", "connect.go:MarshalBinary/UnmarshalBinary")])
p("C05", "Sequence numbers wrap and compare consistently",
  "The sending side and the receiving side step through the same cycle of sequence numbers, 0 up to the limit minus one and back to 0, one step per packet. Comparing a received number with the expected one gives the signed distance modulo that same limit: zero only for equality, negative for the half of the cycle behind, positive for the half ahead.",
  ["inputs"], "all pairs of sequence numbers, including both sides of the wrap",
  "TestDistance prints and asserts nothing; no test sends 2^20 packets.",
  ["channel.go", "packet.go"], [("send number successor", "channel.go:newID"), ("expected number successor", "channel.go:newExpectedID"), ("signed distance", "packet.go:distance")])
p("C06", "Large messages are split and reassembled without loss",
  "A message larger than the packet limit is cut into consecutive pieces that cover every byte exactly once in order, all but the last marked as continued; nothing more is sent once a piece fails. The receiver joins the continued pieces and the final one in arrival order into one message, hands over exactly one unmarked message, and starts the next message from an empty state.",
  ["inputs"], "all message lengths and all positive packet limits",
  "TestSplitPacket samples two lengths with one limit.",
  ["split.go", "channel.go"], [("splitter", "split.go:splitPacket"), ("combiner", "split.go:packet")])
p("C07", "Every datagram the library emits fits into one UDP datagram",
  "Whatever packet limit the application configures, by constructor parameter or by setter, a data packet with header and encryption overhead never exceeds the largest UDP payload over IPv4 (65507 bytes), and the effective limit is never zero or negative.",
  ["configurations", "inputs"], "all configured limits and message lengths",
  "Tests use a limit of 512 only.",
  ["packet.go", "split.go", "tru.go"], [("default limit", "packet.go:MaxDataLen"), ("setter", "tru.go:SetMaxDataLen"), ("constructor parameter", "tru.go:New")])
p("C08", "No datagram from the network can crash the process",
  "Processing a received datagram, of any content, from any address and at any point of a connection's life, never panics: every index, slice bound, type assertion, pointer use, channel send and close reached from the listener is safe on every path.",
  ["inputs", "histories"], "all datagram contents and arrival histories",
  "Tests send only well-formed packets produced by the library.",
  ["tru.go", "connect.go", "crypt.go", "packet.go", "split.go", "receive_queue.go"], [("listener", "tru.go:listen/serve"), ("handshake", "connect.go:serve"), ("decryption", "crypt.go")])
p("C09", "Duplicated or stray handshake datagrams leave a connection intact",
  "A handshake answer whose identifier is not pending, a repeat of one already processed, or a repeated connect request of the connection's own handshake never destroys, replaces or re-keys an established connection. Only a connect request with a new identifier restarts the connection from that address.",
  ["histories", "fault_sequences"], "all duplications, delays and replays of handshake datagrams",
  "Tests never duplicate a datagram.",
  ["tru.go", "connect.go"], [("handshake dispatch", "tru.go:serve"), ("handshake steps", "connect.go:serve")])
p("C10", "Silent peers are dropped, live idle peers are kept",
  "Every well-formed ping, pong, acknowledgement or data datagram from the peer counts as activity and a datagram that fails decryption does not. An activity check runs periodically for the whole life of a connection: beyond the silence limit it destroys the connection, beyond the shorter ping limit the client side pings, and a ping is always answered, so that an idle but live peer is heard from before the silence limit.",
  ["histories", "schedules"], "all traffic patterns",
  "No test idles for longer than the 6 s limit.",
  ["statistic.go", "channel.go", "tru.go"], [("activity check", "statistic.go:checkActivity"), ("activity mark", "tru.go:serve"), ("ping", "channel.go:newChannel")])

# ---------------------------------------------------------------- security
p("S01", "Sender and receiver derive the same key and cipher for every packet",
  "For every payload length and every sequence number, the cipher and key with which the receiver opens an encrypted payload are exactly those with which the sender sealed it, and both depend on the session key and the packet's own number. The handshake's chunked public-key encryption and decryption agree on chunk sizes in the same way.",
  ["inputs"], "all payload lengths and sequence numbers",
  "Tests use a handful of lengths and small numbers.",
  ["crypt.go"], [("encryptPacketData / decryptPacketData", "crypt.go"), ("packetKey", "crypt.go"), ("RSA chunking", "crypt.go:encrypt/decrypt")])
p("S02", "Application data is never sent or accepted in clear",
  "The payload of every application data packet that is put on the wire is the output of encryption under the connection's session key and that packet's own number. A received payload reaches the reader only as the output of a successful decryption; without a session key, or when authentication fails, it is neither handed over nor acknowledged.",
  ["inputs", "histories", "schedules"], "all data packets at all points of a connection's life, including before the key exchange has completed",
  "Tests look at delivered plaintext only.",
  ["channel.go", "tru.go", "crypt.go", "connect.go"], [("encrypt before queueing", "channel.go:writeTo"), ("decrypt before anything else", "tru.go:serve")])
p("S03", "Secrets come from a cryptographic random source",
  "Session keys, cipher nonces and private keys are drawn only from the operating system's cryptographic random generator, every nonce is freshly drawn for each sealed payload, and a failure of that generator is an error, never a weaker key.",
  ["histories", "inputs"], "all connections and all packets",
  "Randomness quality is not observable in a sample.",
  ["crypt.go"], [("session key generation", "crypt.go:makeSesionKey"), ("nonce", "crypt.go:encryptAES"), ("RSA key", "crypt.go:GeneratePrivateKey")])
p("S04", "Key material never leaves the process unencrypted",
  "Session keys and private keys never flow into a datagram, a log line, an error text or a returned string except through public-key encryption to the peer; only the public half of the key pair is sent.",
  ["inputs", "histories"], "all paths on which key material exists",
  "Absence of a flow cannot be sampled.",
  ["crypt.go", "connect.go", "channel.go", "tru.go"], [("session key transport", "connect.go:serve"), ("public key export", "crypt.go:publicKeyToBytes")])

# ---------------------------------------------------------------- lifecycle
p("L01", "A connection is torn down exactly once and removes only itself",
  "However many causes coincide (peer disconnect, local close, inactivity, retransmit limit, reconnect), a connection's readers receive the destroyed notification exactly once, its registration is removed, and no other connection's registration, such as a newer one from the same address, is ever removed. A disconnect datagram from the peer always tears the connection down.",
  ["schedules", "histories"], "all interleavings and orders of the teardown causes",
  "Tests close each connection once.",
  ["channel.go", "tru.go", "send_queue.go", "statistic.go"], [("destroy", "channel.go:destroy"), ("callers", "tru.go, statistic.go, send_queue.go")])
p("L02", "A destroyed connection leaves no timer running",
  "After a connection has been destroyed none of its periodic timers (retransmit, activity check, speed meters) is armed again, even when its callback was already running at the moment of destruction.",
  ["schedules"], "all interleavings of timer callbacks and destruction",
  "Needs a timer to fire inside destruction.",
  ["send_queue.go", "statistic.go", "speed.go"], [("retransmit timer", "send_queue.go"), ("activity timer", "statistic.go"), ("speed timers", "speed.go")])
p("L03", "A closed connection sends nothing more and says so",
  "Writing to a destroyed connection returns the destroyed error and queues nothing; packets of a destroyed connection still waiting to be sent or to be read are discarded. Closing an open connection sends the peer one disconnect datagram before tearing down; closing again does nothing.",
  ["schedules", "histories"], "all orders of close, write and queued packets",
  "Tests never write after close.",
  ["channel.go", "tru.go"], [("destroyed check", "channel.go:writeTo"), ("sender and reader loops", "tru.go"), ("close", "channel.go:Close")])
p("L04", "Closing an endpoint is idempotent and releases everything",
  "Closing an endpoint notifies the global reader, closes every connection, closes the socket, ends the listener, reader and sender goroutines and stops the statistic timer, on every path; closing it again neither panics nor repeats this. A goroutine blocked handing a packet to the reader or sender goroutine is released by the close.",
  ["schedules", "histories"], "all moments of closing, including repeated and concurrent closes",
  "Tests close each endpoint once and then exit.",
  ["tru.go", "statistic.go"], [("Close/stopListen", "tru.go"), ("goroutine loops", "tru.go")])
p("L05", "Creating an endpoint succeeds or leaves nothing behind",
  "The constructor returns either a working endpoint and no error, or an error with the socket closed and no goroutine or timer of the failed endpoint left running, whichever step fails. Goroutines and timers are started only after everything they use has been initialised.",
  ["fault_sequences", "configurations"], "every failing step and every parameter order",
  "Tests only construct successfully.",
  ["tru.go", "statistic.go"], [("New", "tru.go")])
p("L06", "A connect attempt ends with a usable connection or an error",
  "A connect attempt always ends, within the connection timeout, and returns either an error or a registered connection with a session key installed; never neither and never both. Its pending entry is removed whichever way it ends, and a late answer neither blocks nor crashes the listener.",
  ["histories", "fault_sequences", "schedules"], "all losses, delays, reorderings and contents of the answers",
  "Tests connect to a well-behaved peer only.",
  ["connect.go"], [("Connect/wait", "connect.go"), ("handshake answers", "connect.go:serve")])

# ---------------------------------------------------------------- concurrency
p("K01", "Shared state is only touched under its lock",
  "Any two goroutines that access the same mutable state of an endpoint, connection, queue, statistic, logger or hotkey menu, at least one of them writing, hold a common lock while they do so.",
  ["schedules"], "all interleavings of API calls, listener, reader, sender and timer goroutines",
  "The race detector sees only the schedules the tests happen to run; the suite runs without it.",
  ["channel.go", "tru.go", "send_queue.go", "receive_queue.go", "statistic.go", "statistic_log.go", "speed.go", "packet.go", "connect.go", "tru_net.go", "teolog/teolog.go", "hotkey/hotkey.go"], [("mutex embedded in each structure", "all files")])
p("K02", "Locks are released on every path and never deadlock",
  "Every lock is released on all exits of the operation that took it, is never acquired again by the goroutine that holds it, is never released when not held, and all goroutines acquire the locks in one consistent order.",
  ["schedules"], "all paths and interleavings",
  "Deadlocks need a specific interleaving or an early return.",
  ["channel.go", "tru.go", "send_queue.go", "receive_queue.go", "statistic.go", "statistic_log.go", "speed.go", "packet.go", "connect.go", "tru_net.go", "teolog/teolog.go", "hotkey/hotkey.go"], [("lock/unlock pairs", "all files")])
p("K03", "No callback runs and nothing blocks forever while a lock is held",
  "User callbacks (reader, connect, punch, delivery, per-channel and hotkey actions) are called with no library lock held, so that they may call any library function. No goroutine waits on a channel or group while holding a lock that the goroutine it waits for needs.",
  ["schedules", "programs"], "all callbacks an application can supply and all interleavings",
  "Test callbacks do not call back into the library at the critical points.",
  ["channel.go", "tru.go", "send_queue.go", "statistic.go", "connect.go", "hotkey/hotkey.go"], [("callback invocations", "tru.go, channel.go, packet.go"), ("channel hand-over", "channel.go:writeToSender")])
p("K04", "Concurrent writers never mix the pieces of their messages",
  "When several goroutines write messages to the same connection at once, all pieces of one message get consecutive sequence numbers, so that the receiver reassembles each message from its own pieces only.",
  ["schedules"], "all interleavings of writers, for every message length",
  "Tests write from one goroutine.",
  ["channel.go", "split.go"], [("write serialisation", "channel.go:WriteTo")])

# ---------------------------------------------------------------- API
p("A01", "Stream reads return every byte of a message and then end-of-message",
  "For every buffer size, successive reads on a stream connection return the bytes of each received message in order, none lost or repeated, then one end-of-message mark (io.EOF), and then continue with the next message. The count returned never exceeds the buffer and equals the bytes copied.",
  ["inputs", "histories"], "all buffer sizes and message lengths",
  "No test uses the stream interface.",
  ["tru_net.go"], [("Read", "tru_net.go"), ("reader callback", "tru_net.go")])
p("A02", "Closing unblocks readers and accepters, and later calls fail cleanly",
  "After a stream connection is closed, locally or because the peer went away, a blocked read, every later read once the message already being read is used up, and a later write return an error, and a second close returns an error without panicking, even when closes coincide. After a listener is closed, a blocked or later accept returns an error.",
  ["schedules", "histories"], "all interleavings of close with read, write, accept and peer disconnect",
  "No test uses the stream interface.",
  ["tru_net.go"], [("Conn.Close/Read/Write", "tru_net.go"), ("Accept/Close", "tru_net.go")])
p("A03", "The delivery callback is called exactly once",
  "For a write that was accepted with a delivery callback, the callback is called exactly once: without error when the acknowledgement arrives in time, or with a timeout error when it does not, never both and never more than once.",
  ["schedules", "histories"], "all orders of acknowledgement, duplicate acknowledgement, timeout and close",
  "TestPacketDelivery ends before the stale timer fires.",
  ["packet.go", "tru.go", "channel.go"], [("SetDelivery", "packet.go"), ("ack case", "tru.go:serve")])
p("A04", "The caller's buffer is neither changed nor kept",
  "A write never modifies the bytes the caller passed, and once it has returned the library holds no reference to them: queued and retransmitted packets use the library's own copy.",
  ["inputs", "histories"], "all payload lengths, including those that are split, and all retransmissions",
  "Tests do not reuse their buffers.",
  ["channel.go", "crypt.go", "split.go", "tru_net.go"], [("encryptPacketData copies", "crypt.go"), ("Conn.Write", "tru_net.go")])
p("A05", "Failures to send are reported to the caller",
  "An error from resolving an address, encrypting, encoding or writing to the socket is returned to the caller of the operation that needed it, a write returns a count only when there was no error, and an unsupported parameter or address type is an error rather than ignored.",
  ["inputs", "fault_sequences"], "all failures of the steps of a send",
  "Tests only send to reachable loopback addresses.",
  ["tru.go", "channel.go", "tru_net.go", "split.go", "connect.go"], [("WriteTo", "tru.go, channel.go"), ("Write", "tru_net.go")])
p("A06", "No message is lost between connecting and installing the reader",
  "A reader supplied to a connect, dial or accept is in place before the connection can receive its first data packet, so that every acknowledged message reaches it.",
  ["schedules"], "all timings of the peer's first message",
  "Loopback timing hides the window.",
  ["connect.go", "tru_net.go", "channel.go"], [("Connect", "connect.go"), ("Dial/Accept", "tru_net.go")])
p("A07", "Every listener serves its own address",
  "A listener is bound to the port it was asked for, reports its address, and its accept returns exactly the connections made to it, whatever other listeners and dials the process has made before; connections that reach an endpoint made only for dialling are never handed to a listener's accept. After the shared endpoint has been closed the next listen or dial creates a new one.",
  ["histories", "configurations"], "all orders of listen, dial and close in a process",
  "No test uses the stream interface.",
  ["tru_net.go"], [("newTrunet", "tru_net.go"), ("shared endpoint", "tru_net.go:truCommon")])

# ---------------------------------------------------------------- support
p("M01", "Log level names, numbers and loggers agree",
  "Every log level has one name, parsing that name (in any case, with surrounding blanks) gives the level back, an unknown name gives no logging, cycling visits every level and wraps, and setting a level enables exactly the loggers of that level and of all levels above it in severity.",
  ["inputs", "configurations"], "all levels and all level names",
  "TestTeolog asserts nothing.",
  ["teolog/teolog.go"], [("levelFromStr/levelToStr", "teolog/teolog.go"), ("SetLevel/SwitchLevel", "teolog/teolog.go"), ("levels table", "teolog/teolog.go:New")])
p("M02", "A log filter only suppresses, and writing obeys the writer contract",
  "With no filter every enabled line is written; with a filter a line is written if and only if it contains at least one of the filter's alternatives. The log writer reports the full length for every line it consumed, written or suppressed, or else an error.",
  ["inputs"], "all lines and filters",
  "TestTeolog asserts nothing and sets no filter.",
  ["teolog/teolog.go"], [("writer.Write", "teolog/teolog.go"), ("Logfilter", "teolog/teolog.go")])
p("M03", "The terminal mode is always restored",
  "Reading a key restores the terminal to the mode it had before, on every path that changed it, and the saved mode is taken before any change; on every supported platform a failure to save or set the mode leaves it unchanged and is reported.",
  ["fault_sequences", "configurations"], "all failing steps and all platforms",
  "Tests have no terminal.",
  ["term/term.go", "term/term_unix.go", "term/term_windows.go", "term/term_plan9.go", "term/term_unsupported.go"], [("Getch", "term/term.go"), ("makeNonBlock/restoreState", "term/term_*.go")])
p("M04", "Each hotkey runs its own action",
  "A pressed key runs exactly the action registered for it, or the unknown-key action when there is none, every key of an alternative list is registered, a one-shot next-key action runs for the next key only, and after stop no further key is read and each stop action has run.",
  ["inputs", "histories"], "all registrations and key sequences",
  "There are no hotkey tests.",
  ["hotkey/hotkey.go"], [("Add", "hotkey/hotkey.go"), ("run", "hotkey/hotkey.go"), ("Stop", "hotkey/hotkey.go")])
p("M05", "Statistics count each event once and in its own row",
  "Each message sent, packet retransmitted, acknowledgement received or found stale, message handed over and duplicate dropped increments its own counter once and no other, and a statistics snapshot reports for each connection that connection's own figures, however many connections there are.",
  ["histories", "schedules"], "all event histories and numbers of connections",
  "Tests check the drop counter in one history and one connection.",
  ["statistic.go", "tru.go", "channel.go", "send_queue.go", "speed.go"], [("counters", "statistic.go"), ("Statistic", "statistic.go")])

# ---------------------------------------------------------------- outside the family
p("N01", "Messages are delivered with low latency and without starving each other",
  "A message is handed to the network and to the application as soon as possible, and one slow reader does not delay the other connections.",
  ["schedules", "histories"], "all loads", "Latency is a runtime quantity.",
  ["tru.go", "channel.go"], [("adaptive send delay", "channel.go:writeToDelay")])
p("N02", "Everything sent is eventually delivered while the network is fair",
  "If the network delivers infinitely often, every accepted message is eventually handed to the peer's reader.",
  ["schedules", "fault_sequences"], "all fair loss patterns", "Liveness over unbounded histories.",
  ["send_queue.go", "tru.go"], [("retransmit", "send_queue.go")])
p("N03", "Trip time and speed figures track the real traffic",
  "The trip time, speed and send-delay figures converge to the true round-trip time and packet rates.",
  ["histories"], "all traffic", "Numerical result over time.",
  ["statistic.go", "speed.go", "channel.go"], [("setTripTime", "channel.go"), ("speed", "speed.go")])
p("N04", "Deadlines on stream connections are honoured",
  "A read or write on a stream connection fails with a timeout error once its deadline has passed.",
  ["schedules"], "all deadlines", "Timing; no test uses the stream interface.",
  ["tru_net.go"], [("SetDeadline", "tru_net.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
S,C,I,PR,H,CF,F="schedules","crash_points","inputs","programs","histories","configurations","fault_sequences"

p("C01","The outgoing byte stream is always well-formed, unmixed WebSocket",
 "For every interleaving of message sends, streamed writers, broadcasts, batches, pings, pong replies and closes on one connection, the bytes written to the client decode as a legal sequence of unmasked server frames: fragments of one message are never interleaved with another data message, control frames are whole, at most 125 bytes and carry exactly the payload their header announces, and nothing follows a close frame. Every complete message the client decodes is byte-for-byte, and type for type, one that the application asked to send on that connection, and no message is ever delivered cut short, merged or corrupted, also when writes fail, time out part-way, contexts are cancelled or the connection is closed mid-message, or when a writer is used after it was closed.",
 [S,F,CF,I],"all schedules of concurrent senders/broadcasters/batch flushers/pinger/closer; all write-fault positions, deadlines, cancellations; all write-buffer sizes and message sizes",
 "The tests write through one goroutine into an in-memory buffer and never decode what came out; no test has two writers of different kinds, a failing write, a cancelled context or a close in mid-message.",
 ["conn_write.go","broadcast.go","conn_batcher.go","frame.go","conn.go"],
 [("per-message writer lock and per-frame write lock","conn_write.go NextWriter/flush/writeControl"),("frame header construction","frame.go writeHeaders"),("broadcast frames written under the write lock","broadcast.go writeToConn"),("close frame written last while keeping the locks","conn_write.go writeClose")],
 [("writer buffer/start/used/flushCount","the frame being assembled","conn_write.go ConnWriter"),("control buffer","header and payload of the next control frame","conn.go ControlWriter")],
 ["bytes accepted by the net.Conn given to Upgrade"])

p("C02","A successful send is on the wire exactly once and in order",
 "When a direct send (whole-message send, JSON send, or a streamed writer that was closed) returns nil, the complete message has been handed to the transport exactly once before the call returned; a send that reports an error has been transmitted completely at most once and never as a truncated message. If one successful send returned before another on the same connection was started, the client receives them in that order, also across goroutines.",
 [S,F,H],"all histories of concurrent sends with faults, cancellations and closes",
 "Tests check the returned error only, with one sender and a transport that never fails; ordering and at-most-once are statements about histories of concurrent calls.",
 ["conn_write.go"],
 [("writer lock hand-over between senders","conn_write.go NextWriter/Close"),("flush of the final fragment before the lock is released","conn_write.go Close")],
 [],["return values of send calls","bytes accepted by the net.Conn"])

p("C03","Error contract: fatal means closed, anything else means usable",
 "If a read or send call returns an error that the library classifies as fatal, the connection is closed: its transport gets closed, the disconnect hook runs, and later reads and sends fail with a fatal error without blocking. If it returns any other error (cancelled or expired context, JSON encoding or decoding failure, message type mismatch, rate limited), the connection is still alive and the next valid read or send on it works and is not corrupted by the failed call.",
 [S,F,H,I],"all sequences of failing and succeeding calls, cancellation instants, undecodable/mismatching messages and transport faults",
 "Tests exercise no failing call followed by another call; whether the connection survives depends on where in a multi-frame operation the failure lands.",
 ["errors.go","conn_write.go","conn_read.go","conn_utils.go"],
 [("FatalError wrapper","errors.go"),("locks that observe the closed channel and the context","conn_utils.go mu"),("reader restart at message boundaries","conn_read.go NextReader")],
 [],["IsFatalErr on returned errors","net.Conn.Close","subsequent calls"])

p("C04","Incoming messages arrive complete, unaltered, once, and in order",
 "For every way a conforming client fragments, masks and segments its byte stream (including bytes sent together with the handshake request, control frames between fragments, empty fragments, and any read-buffer and destination-buffer sizes), the application receives exactly the messages the client sent, with their types, in order and byte for byte. This also holds when the application abandons a message part-way, or decodes only part of it: the next read starts at the next message.",
 [I,S,CF,H],"all fragmentations, segmentations, buffer sizes, interleavings with control frames and with partial consumption by the application",
 "Tests read two hard-coded single-frame messages from a buffer that is complete from the start.",
 ["conn_read.go","upgrader.go","conn.go","mask.go"],
 [("frame parser and continuation handling","conn_read.go acceptFrame/Read"),("buffered hijack data hand-over","upgrader.go brNetConn, conn.go newConn"),("incremental unmasking with running key position","conn_read.go/mask.go")],
 [("reader position","remaining bytes, fin, mask position of the current frame","conn_read.go ConnReader")],
 ["values returned by ReadMessage/ReadString/ReadBinary/ReadJSON/NextReader+Read"])

p("C05","A misbehaving peer is refused with the right close code",
 "After any sequence of valid traffic, and however the bytes are split and timed, an invalid frame from the client (reserved bits, unmasked, unknown opcode, fragmented or oversized control frame, continuation without a start, new data message inside a fragmented one, malformed close frame, invalid UTF-8 in a message read as text with validation enabled) makes the pending or next read fail with a fatal error, closes the connection with the corresponding close code (1002 protocol error, 1007 invalid payload), and no part of the offending message is delivered as a message. Valid messages before it are delivered intact, a conforming client is never refused, and no client input ever makes the server panic.",
 [I,S,F],"all positions and kinds of violation within all valid traffic, all segmentations and timings, concurrent server sends",
 "Tests contain one invalid frame (bad UTF-8), alone on the connection and delivered in one piece.",
 ["conn_read.go","conn.go","frame.go"],
 [("header validation","conn_read.go acceptFrame"),("continuation checks","conn_read.go NextReader/Read"),("close frame validation","conn.go handleClose")],
 [],["read errors","close frame written to the net.Conn"])

p("C06","Inbound size and fragment limits are enforced exactly",
 "A client message whose payload exceeds the configured maximum message size is never delivered, whether it is one frame or many small ones: the connection is closed with 1009; a message within the limit is accepted, and a limit of -1 means no limit. A message made of more fragments than the configured maximum is refused with 1008 and one with at most that many is accepted, with control frames in between not counted.",
 [I,CF,H],"all limits, frame splits, interleaved control frames, segmentations",
 "No test sends a message near a limit.",
 ["conn_read.go","options.go"],
 [("size accounting per frame and per message","conn_read.go acceptFrame/Read"),("fragment counter","conn_read.go acceptFrame/NextReader")],
 [("totalSize, fragments","accumulated size and frame count of the current message","conn_read.go ConnReader")],
 ["read results","close frame code"])

p("C07","A message cut off by a disconnect is never delivered as complete",
 "If the client's stream ends, resets or stalls at any byte, the application receives exactly the messages that had arrived completely, then a fatal error; a partially received message is never reported as a complete one. The connection is then closed, and the disconnect hook runs exactly once.",
 [C,S,F],"all cut positions in all streams (between and inside headers, masks, payloads, fragments), EOF / reset / silence, all read paths",
 "Tests never end the stream inside a message.",
 ["conn_read.go","conn_utils.go"],
 [("EOF handling inside frames","conn_read.go Read/acceptFrame"),("read deadline","conn_read.go NextReader")],
 [],["read results and errors","OnDisconnect"])

p("C08","Keepalive: live peers stay connected, dead peers are dropped",
 "While the application keeps reading, a client that answers pings is never disconnected for being idle, for any number of ping periods and any scheduling of ping and pong; pings keep being sent about once per configured period for as long as the connection lives. A client that goes silent is detected: a blocked read fails with a fatal error and the connection is closed within the configured read wait plus the write wait.",
 [S,F,CF],"all schedules of pinger, reader and pong arrival; all latencies below the configured waits; silence from any instant",
 "Tests use a 30 s ping period and finish in milliseconds, so no ping is ever sent.",
 ["conn.go","conn_write.go","conn_read.go"],
 [("ping loop","conn.go pingLoop"),("pong handling and read-deadline extension","conn.go handlePong"),("outstanding-ping flag","conn_write.go Ping")],
 [("pingSent","a ping is outstanding","conn.go Conn"),("read deadline","when a silent peer is given up","conn_read.go NextReader / conn.go handlePong")],
 ["ping frames on the wire with their simulated times","read errors","connection closure"])

p("C09","Every client ping is answered by one matching pong, in order",
 "While the application is reading and the connection stays open, each ping from the client is answered by exactly one pong carrying the same payload, in the order the pings were sent, including pings between the fragments of a message, pings with empty payload, and while the application is streaming or broadcasting to that client. A ping whose bytes arrive slowly (within the read wait) neither blocks the connection's other writers nor causes a disconnect, and unsolicited empty pongs are ignored.",
 [S,I,F],"all positions of pings in the stream, payload sizes 0..125, concurrent writers, slow delivery of the ping's bytes, read-buffer sizes",
 "No test sends a ping to the server.",
 ["conn_write.go","conn_read.go","conn.go"],
 [("pong reply","conn_write.go pong/writeControl"),("control/data write arbitration","conn_utils.go mu")],
 [],["pong frames on the wire"])

p("C10","Closing: one final close frame, right code, hooks once",
 "However many goroutines close a connection and whatever triggers it (application call, client close frame, protocol error, failed ping, shutdown), at most one close frame is written, it is the last thing written, it carries the code and reason of the close that won (a valid client close code is echoed, an invalid code passed by the application is replaced by 1001, a reason too long to fit is omitted), and exactly one if the transport is healthy. The transport is closed afterwards and the disconnect hook runs exactly once per connection.",
 [S,F,I],"all sets of concurrent closers, codes and reasons, with traffic in flight and stalled or broken transports",
 "The existing test closes an idle connection once from one goroutine.",
 ["conn.go","conn_write.go"],
 [("once-only close","conn.go CloseWithCode"),("close frame","conn_write.go writeClose"),("client close handling","conn.go handleClose")],
 [("done channel","the connection is closed","conn.go Conn")],
 ["close frames on the wire","net.Conn.Close","OnDisconnect"])

p("C11","No call hangs or panics: everything ends within the configured waits",
 "For every client behaviour (stops reading, reads slowly, resets, goes silent) and every schedule, each send, ping, close, broadcast and read returns within a small multiple of the configured write wait (reads: read wait), even when called with a background context, and a call whose context is cancelled while it waits for its turn returns promptly. The library never deadlocks and never panics under any use of its concurrency-safe API, including calls made from inside its own hooks.",
 [S,F,H],"all schedules and peer faults; calls from hooks; all call mixes on one or many connections",
 "The mock transport in the tests never blocks, never fails and ignores deadlines, so no waiting path runs.",
 ["conn.go","conn_write.go","conn_utils.go","broadcast.go","manager.go","rooms_manager.go","flusher.go"],
 [("write deadlines","conn_write.go flush/writeControl/writeClose"),("locks that give up on close, context or timer","conn_utils.go mu"),("lock order between managers, rooms and connections","manager.go, rooms_manager.go")],
 [],["return of every call in simulated time","quiescence of the simulated scheduler"])

p("C12","A closed connection leaves nothing behind",
 "Once a connection is closed by any path, every goroutine the library started for it terminates within the configured waits, its transport is closed, it is absent from every manager and room, and the library keeps no reference to it (rate limiter, flusher, registries), so its memory is reclaimed. The same holds for a handshake that fails after the connection was taken over.",
 [S,F,H],"all close paths and instants relative to registration, joins, pings, flushes and broadcasts; transport failures during the handshake",
 "Tests never look at goroutines or registries after a close; leaks depend on the instant of the close.",
 ["conn.go","broadcast.go","flusher.go","rate_limiter.go","manager.go","rooms_manager.go","upgrader.go"],
 [("close hooks and removals","conn.go CloseWithCode"),("loops that end on close","conn.go pingLoop, broadcast.go broadcastListener")],
 [],["live simulated goroutines at quiescence","weak references to the connection after garbage collection","registry listings"])

p("C13","Rate limiting is an exact per-connection token bucket",
 "With a limiter of r messages per second and burst b, each connection's accepted messages conform to its own token bucket starting full: never more than b + r*t messages in any window of length t, and a message arriving when a token is available is accepted, regardless of other connections' traffic. Control frames are never counted or dropped, a fragmented message counts once, and a rejected message is skipped entirely so that the next one is read intact, with the limit hook called once per rejected message; if the hook returns an error, the connection is terminated.",
 [S,I,H],"all arrival-time sequences, fragmentations, interleavings over several connections",
 "No test uses the limiter; conformance is a statement about all arrival histories in time.",
 ["rate_limiter.go","conn_utils.go","conn_read.go"],
 [("per-connection bucket","rate_limiter.go"),("skip of the rejected message","conn_utils.go skipRestOfMessage")],
 [("clients map","bucket per connection","rate_limiter.go")],
 ["read results and OnRateLimitHit calls with simulated times"])

p("C14","Broadcasts reach exactly the right connections, once, in order",
 "A broadcast to a room or manager is delivered exactly once to every connection that is a member throughout the call, is not excluded, had queue space and stays healthy; it is never delivered to a non-member or an excluded connection, and never twice. The returned count equals the number of connections that were handed the message, and two broadcasts made one after the other are seen in that order by every connection that gets both; with the waiting strategy no member misses a message, including one that joined just before the call.",
 [S,H,CF],"all schedules of concurrent broadcasters, joins, leaves, closes and direct sends",
 "There is no broadcast test; exactly-once and order over concurrent membership changes are properties of histories.",
 ["broadcast.go","manager.go","rooms_manager.go"],
 [("per-connection broadcast queue and listener","broadcast.go, conn.go enableBroadcasting"),("membership snapshot","manager.go/rooms_manager.go GetAllConns")],
 [("broadcastQueue","messages waiting for one connection","conn.go")],
 ["messages decoded from each client's stream","return values"])

p("C15","A slow client cannot hurt the others",
 "With the drop strategy a broadcast never waits for any client; with the close strategy it never waits and a client whose queue is full is closed (1008) and leaves the room; with the waiting strategy it waits for a slow client only until that client recovers, is closed or the context ends. In every case clients that keep up receive all messages and are not closed, whatever the slow ones do.",
 [S,F,CF],"all sets of stalled, slow, closing and healthy members; all queue sizes and strategies",
 "No test has a client that stops reading.",
 ["broadcast.go","options.go"],
 [("non-blocking enqueue and strategy switch","broadcast.go broadcast/batchBroadcast"),("per-connection listener","broadcast.go broadcastListener")],
 [],["broadcast call durations in simulated time","healthy clients' streams","closures"])

p("C16","Rooms and managers track exactly the live membership",
 "A connection is listed by a room or manager from the time adding it returns until it is removed, moved, replaced or closed, and never after; once it is closed it disappears from every room and manager it had joined, also when closing races with joining. Join/leave and register/unregister hooks run exactly once per actual change, the room hooks with the arguments given to the call that caused it (those of the join when the connection was closed). A new connection registered under a key that is in use replaces and closes the old one and is itself not affected by the old one's cleanup (registering a connection again under its own key leaves it registered), and a room stays reachable under its key until that very room is closed. Connecting to a room while a room of that key is being closed puts the connection into a reachable room or removes it again.",
 [S,H],"all schedules of connect, add, remove, move, close, replace and room close over several rooms and managers",
 "The only manager test constructs one struct; all the guarantees concern concurrent histories.",
 ["manager.go","rooms_manager.go","conn.go"],
 [("close callback","conn.go onClose"),("registry maps under locks","manager.go, rooms_manager.go")],
 [("onClose","what to undo when the connection closes","conn.go Conn"),("rooms/conns maps","membership","rooms_manager.go, manager.go")],
 ["Get/GetAllConns/GetRoomKeys results","hook calls"])

p("C17","Shutdown terminates and closes every connection",
 "Shutting down a manager or room manager returns within a bounded time whatever the clients do and whatever its hooks call, closes every connection that was registered before it started (normal closure for a manager, going away for rooms), runs the leave/unregister and disconnect hooks once per connection, and leaves the registry empty. Concurrent closes, joins, broadcasts and a second shutdown do not deadlock it.",
 [S,F,H],"all schedules of shutdown against traffic, closes, hooks that call back, stalled clients",
 "Shutdown is never called by the tests.",
 ["manager.go","rooms_manager.go"],
 [("worker pool closing connections","manager.go/rooms_manager.go Shutdown")],
 [],["return of Shutdown","closures and close codes","hooks","registry listings"])

p("C18","Batched messages arrive exactly once, in order, on time",
 "Every message accepted for batching on a healthy connection is delivered exactly once, in acceptance order, inside a batch of the configured format (JSON array, or 4-byte big-endian length prefixes, with the optional prefix and suffix elements first and last; or handed to the custom sender), no later than about two flush intervals after it was accepted. A batch never exceeds the configured maximum size unless it is a single message, messages accepted within one flush interval are not spread over more batches than interval and size call for, and closing the flusher delivers everything accepted before the close.",
 [S,H,CF],"all schedules of producers, ticks, overflow flushes, slow clients, flusher close and connection churn",
 "There is no batching test in the suite; order and loss depend on flush goroutine scheduling.",
 ["conn_batcher.go","flusher.go","broadcast.go"],
 [("batch accumulation and hand-over","conn_batcher.go Batch/flush"),("periodic and final flush","flusher.go listener/flushAll"),("encoders","conn_batcher.go")],
 [("messages,totalSize","the pending batch","conn_batcher.go messageBatch")],
 ["binary messages decoded from the client's stream","return values of Batch calls"])

p("C19","The upgrade is all-or-nothing and gated by the middlewares",
 "A handshake ends in exactly one of two ways: a refused request gets exactly one HTTP error response, no takeover of the connection and no connect hook; an accepted one has passed every middleware, in order, and gets exactly one complete 101 response, with the accept key and the negotiated subprotocol, before any WebSocket byte and before the connect hook. A middleware error refuses the request with the code it specifies, and if taking over or writing to the connection fails the call returns an error, the transport is closed and nothing is registered.",
 [F,S,CF,H],"all failure points of the handshake I/O, middleware outcomes, subprotocol configurations and concurrent upgrades on one upgrader",
 "No test performs a handshake.",
 ["upgrader.go","options.go"],
 [("validation, middleware loop, hijack and response","upgrader.go Upgrade")],
 [],["recorded ResponseWriter calls","bytes written to the hijacked connection","hooks"])

p("C20","The concurrency-safe API is free of data races",
 "Any concurrent use of the operations the library offers as safe for concurrent use (sends and writers, ping, close, batching, broadcasting, room and manager operations, shutdown, rate limiting, one reader per connection) leaves no two conflicting accesses to the library's shared memory unordered by synchronisation: no concurrent map access, no field read or written without happens-before order.",
 [S,H],"all schedules of all concurrent operations on connections, rooms, managers, limiter and flusher",
 "The suite runs without the race detector and with almost no concurrency; whether two accesses race depends on the schedule.",
 ["conn.go","conn_write.go","conn_read.go","broadcast.go","manager.go","rooms_manager.go","flusher.go","conn_batcher.go","rate_limiter.go"],
 [("locks, channels, atomics","conn_utils.go mu; sync.Mutex/RWMutex/Once/atomic use throughout")],
 [],["happens-before relation over all instrumented field and map accesses"],
 None)

p("C21","Connections never see each other's data",
 "Bytes addressed to one connection never appear in the stream of another, and a message buffer in use by one connection is never modified by another, for any sequence of connects, closes, aborted writers and reconnects sharing one upgrader and its buffer pool. The same holds for inbound data: a connection never delivers bytes received on another.",
 [S,F,H,CF],"all schedules of several connections sharing an upgrader, with closes in mid-message and pooled or unpooled buffers",
 "Tests use one connection at a time, so a recycled buffer is never observed.",
 ["conn_write.go","conn.go","upgrader.go"],
 [("write-buffer pool","upgrader.go writePool, conn_write.go newWriter, conn.go CloseWithCode")],
 [("pooled buffer","memory shared over time between connections","conn_utils.go pooledBuf")],
 ["each client's stream","each connection's read results"])

p("C22","Masking is an exact involution for every length, key and offset",
 "XOR-masking a buffer with a 4-byte key from a given offset transforms byte i with key byte (offset+i) mod 4, for every buffer length, alignment, key and offset, and applying it twice restores the buffer.",
 [I],"all buffers, lengths, keys, offsets",
 "One test masks one 11-byte buffer at offset 0 and only checks that it changes and changes back.",
 ["mask.go"],[("word-wise XOR loop","mask.go maskGo")],[],["mask"])

p("C23","Handshake headers are accepted exactly per RFC 6455",
 "For every request, the upgrade is attempted only if the method is GET, Upgrade contains the token websocket, Connection contains the token Upgrade (both case-insensitively, in comma lists), the version is 13 and the key is 16 base64-encoded bytes; the accept value is the RFC 6455 hash of the key and the subprotocol chosen is the client's first offer that the server supports.",
 [I],"all header values",
 "No test performs a handshake.",
 ["upgrader.go"],[("header validators and subprotocol selection","upgrader.go")],[],["HTTP response"])

with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
print(len(P))

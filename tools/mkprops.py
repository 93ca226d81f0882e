#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
ENG = "socket-io-protocol/src/engine.rs"; DE = "socket-io-protocol/src/socket/de.rs"
SER = "socket-io-protocol/src/socket/ser.rs"; MOD = "socket-io-protocol/src/socket/mod.rs"
ARGS = "socket-io-protocol/src/socket/args/mod.rs"
DA = "socket-io-protocol/src/socket/args/deserialize_attachments.rs"
SA = "socket-io-protocol/src/socket/args/serialize_attachments.rs"
CON = "socket-io-client/src/connection.rs"; REC = "socket-io-client/src/receiver.rs"
EMI = "socket-io-client/src/emit.rs"; CB = "socket-io-client/src/callbacks.rs"
LIB = "socket-io-client/src/lib.rs"; OWN = "owned_subslice/src/lib.rs"

prop("C01", "Engine session order: one open first, nothing after close",
 """A fresh engine decoder rejects every close, ping, pong, text-message and binary-message frame until an open
 packet has been decoded, rejects every further open packet, and rejects every frame once a close packet has been
 decoded. A frame that is rejected leaves the set of frames accepted afterwards unchanged.""",
 ["histories", "inputs"], "every sequence of websocket frames fed to one decoder",
 "the tests feed two sequences of at most two frames; the order rule is over all histories",
 [ENG], [("decoder session state", ENG + " Decoder::decode")],
 [("session state", "initial / active / closed", ENG + " Decoder")], ["Decoder::decode result"])
prop("C02", "Engine frames are typed by their first byte and lose only that byte",
 """Within a session a text frame is decoded by its first character alone (0 open, 1 close, 2 ping, 3 pong, 4 text
 message) and a binary frame as a binary message exactly when its first byte is 4. The payload of a decoded message
 is exactly the rest of the frame after that byte, an open packet is parsed from exactly the rest of its frame, and
 empty frames, other leading bytes and websocket control frames are errors.""",
 ["inputs"], "every text, binary and control websocket frame",
 "unit tests decode one open frame and one control frame; every leading byte and payload length matters",
 [ENG], [("first-byte dispatch", ENG + " Decoder::decode")], (), ["Decoder::decode result"])
prop("C03", "Engine encoders write the header of their kind and nothing else",
 """Encoding a text message gives a text frame made of '4' followed by the text, encoding binary data gives a binary
 frame made of byte 4 followed by the data, and the ping and pong frames are the texts 2 and 3. The packaging
 functions return the given text or data unchanged as a frame of the right type and refuse, by panicking, exactly
 those whose first byte is not the message header.""",
 ["inputs"], "every text and every byte string",
 "the encoders are exercised only through a few fixed packets",
 [ENG], [("encoders", ENG + " encode_message, encode_binary, package_message, package_binary, encode_ping, encode_pong")],
 (), ["returned websocket frame"])
prop("C04", "Nothing a peer sends can panic the receive path",
 """Decoding any sequence of websocket frames, parsing any message, reassembling any attachments, and then reading,
 formatting or converting the resulting packet and its arguments ends with a value or an error and never panics.
 The same holds for the client's frame processing up to, and around, the user's own callbacks.""",
 ["inputs", "histories"], "every frame sequence, message text, attachment list and argument index",
 "a panic kills the background task silently; tests only send well-formed packets",
 [ENG, DE, MOD, ARGS, DA, REC, OWN],
 [("error returns instead of unwraps", DE + " deserialize, deserialize_partial"), ("frame processing", REC)],
 [("pending binary packet", "partial packet plus attachments so far", REC)],
 ["Decoder::decode", "deserialize", "deserialize_partial", "Packet/Args/Arg methods", "client frame processing"])
prop("C05", "Packet kind digits mean the same when written and when read",
 """Connect, disconnect, event, ack, binary event and binary ack packets are written with the kind digits 0, 1, 2, 3,
 5 and 6 respectively. A received packet with one of these digits is decoded as that same kind, with 5 and 6
 treated as the binary forms of event and ack, and a packet with any other digit is rejected.""",
 ["inputs"], "every packet kind on both the sending and the receiving side",
 "tests touch four of the twelve digit/kind pairings",
 [DE, SER], [("kind tables", DE + " and " + SER)], (), ["first characters of the emitted text", "kind of the decoded packet"])
prop("C06", "Emitted packets have the documented header layout",
 """The text of every packet built is the message header, the kind digit, for binary packets only the number of
 attachments and '-', for a namespace other than / only the namespace and ',', the id if there is one, and then the
 arguments as one bracketed comma-separated list, in that order with nothing else. The event name is the first
 argument of an event and each added argument follows in the order it was added.""",
 ["inputs"], "every kind, namespace, id, number of arguments and number of attachments",
 "two builder tests check two fixed packets; the layout must hold for every combination of optional parts",
 [SER], [("header writer", SER), ("packet builder", SER)],
 [("first-argument flag", "whether the opening bracket was written", SER)], ["PacketBuilder::finish", "serialize_connect", "serialize_disconnect"])
prop("C07", "The accepted packet grammar and where its parts begin and end",
 """A packet text is accepted only if it is, from its first to its last character, a kind digit, an optional decimal
 attachment count and '-', an optional namespace of at least two characters that starts with / and runs to the first
 comma, an optional decimal id, and an optional bracketed argument list on one line; numbers have no superfluous leading zeros. The decoded attachment
 count, namespace, id and arguments are exactly those parts of the text, and the namespace is / when none is given.""",
 ["inputs"], "every packet text",
 "a dozen literal packets are parsed in tests; an argument containing the text of a namespace is not among them",
 [DE, MOD], [("packet grammar", DE + " DESERIALIZE_RE"), ("field extraction", DE + " parse_text")], (), ["deserialize result", "Packet::namespace", "Packet::data"])
prop("C08", "Packets with missing or extra parts are rejected",
 """A connect or disconnect packet with an attachment count, an id or any arguments is rejected, an event without
 arguments is rejected, an ack without an id is rejected, a binary event or ack without an attachment count is
 rejected, and a packet is only ever delivered with exactly as many attachments as it announced. Every packet that
 is well formed in these respects, including an ack with an empty argument list, is accepted.""",
 ["inputs"], "every combination of kind, count, namespace, id and argument list",
 "tests cover a handful of the combinations of present and absent parts",
 [DE], [("validation", DE + " deserialize, deserialize_partial")], (), ["deserialize / deserialize_partial result"])
prop("C09", "Binary packets are delivered with exactly their attachments, in order",
 """A binary packet announcing n attachments is delivered immediately when n is 0 and otherwise only once n further
 message frames have arrived, with those frames as its attachments in arrival order. A text message received as an
 attachment, or a binary message received while none is expected, is an error, and after a binary packet has been
 delivered the next message is treated as a new packet.""",
 ["histories", "inputs"], "every sequence of text and binary messages",
 "reassembly is only tested with one attachment handed over in one call",
 [DE, REC], [("pending packet", REC), ("partial deserialization", DE + " deserialize_partial")],
 [("pending binary packet", "header and attachments received so far", REC)], ["packets handed to callbacks"])
prop("C10", "Every outgoing attachment is numbered by its position in the packet",
 """Whenever a byte string is replaced by a placeholder in an outgoing argument, exactly one binary frame made of the
 byte 4 and those bytes is appended to the packet's attachments and the placeholder's number is the number of
 attachments that were there before. The attachment count in the header is the number of binary frames that follow
 it, and they are sent after the text frame in the order of their numbers.""",
 ["inputs"], "every value serialized, with byte strings anywhere inside it",
 "tests check one and two attachments in fixed structures",
 [SA, SER], [("placeholder creation", SA), ("packet assembly", SER + " PacketBuilder::finish")], (), ["PacketBuilder::finish"])
prop("C11", "A failed argument leaves the packet being built unchanged",
 """When adding an argument to a packet fails, the caller is told so and the packet is exactly as it was before: the text written so far, the
 attachments collected so far, and whether the next argument is the first one. A later argument or the finished
 packet is the same as if the failed argument had never been tried.""",
 ["fault_sequences", "inputs"], "every value whose serialization fails, at every point of its serialization",
 "no test makes a serialization fail",
 [SER], [("rollback", SER + " PacketBuilder::serialize_arg")], (), ["PacketBuilder::serialize_arg, finish"])
prop("C12", "Serializing with attachments changes nothing but byte strings",
 """In a binary packet every value other than a byte string is written exactly as plain JSON serialization would
 write it: each serializer operation is passed on to the same operation with the same arguments, and its result is
 returned. Every nested value (element, field, key, map value, variant content) is itself serialized with byte
 string replacement into the same attachment list.""",
 ["inputs", "programs"], "every Serialize implementation and every nesting of serializer calls",
 "about sixty forwarding methods, a few of which are exercised by the tests",
 [SA], [("wrapping serializer", SA)], (), ["calls made on the underlying serializer"])
prop("C13", "Deserializing with attachments changes nothing but placeholders",
 """When a packet has attachments, every value other than a placeholder object is deserialized as it would be
 without: each visitor, access and seed operation is passed on with the same data, and nested values (elements, map values, variants,
 optional and newtype contents) are themselves deserialized with the same attachments. In particular the first
 key of a map is neither lost nor altered, whatever its type and whether or not it contains escapes.""",
 ["inputs", "programs"], "every Deserialize implementation and every JSON argument",
 "about seventy forwarding methods, a few of which are exercised by the tests",
 [DA], [("wrapping deserializer", DA)], (), ["calls made on the underlying deserializer and visitor"])
prop("C14", "Incoming placeholders resolve to the attachment they name, or fail",
 """A placeholder object (one with the key `_placeholder`, directly followed by `num` when it is read into a type)
in an argument of a packet with attachments, at any depth, typed or as a JSON value, is replaced by all the bytes, in order and
 unchanged, of the attachment whose index is its number. A number that is not the index of an attachment, or a
 missing or invalid number, is an error, never a panic and never another attachment.""",
 ["inputs"], "every placeholder number, including huge ones, and every attachment list",
 "tests resolve index 0 of one attachment",
 [DA, ARGS], [("typed resolution", DA + " BinaryVisitor::visit_map"), ("untyped resolution", ARGS)], (), ["Arg::deserialize", "Arg::to_json_value"])
prop("C15", "Sequences become attachments only if every element is a byte",
 """A sequence serialized into a binary packet becomes an attachment exactly when it is non-empty and all its
 elements are bytes, and the attachment is then those bytes in order. Any other sequence is written as a plain JSON
 array that contains every element once, in order, including the leading bytes of a sequence whose later elements
 are not bytes, and a failure to write one is reported.""",
 ["inputs"], "every sequence of serializable elements",
 "mixed sequences are not tested at all",
 [SA], [("sequence serializer", SA + " SeqWrapper")],
 [("collected bytes", "bytes seen so far, kept until a non-byte element arrives", SA)], ["frames and JSON written"])
prop("C16", "User callbacks run without the callback registry locked",
 """Whenever the client calls an event, fallback or ack callback, the lock of the callback registry is not held, so a
 callback may register, clear or emit with callbacks without deadlocking and a panicking callback cannot poison the
 registry. The registry lock is never acquired while it is already held, and is not held across any wait.""",
 ["schedules", "inputs"], "every callback invocation on every path and every thread",
 "a deadlock needs a callback that uses the client; no test has one",
 [REC, CB, EMI, LIB], [("registry lock", LIB + " Client::callbacks"), ("dispatch", REC)],
 [("registry lock", "guards namespaces, events, fallbacks and acks", REC)], ["callback invocation sites"])
prop("C17", "An ack callback is registered before its event can be sent",
 """When an event is sent with an ack callback, the callback is stored under the event's namespace and the id that is
 written in the packet, before the packet is handed to the sending queue. An event sent without a callback carries
 no id and stores nothing.""",
 ["schedules", "inputs"], "every event emission and every interleaving with the receiving task",
 "the race needs a reply that arrives between queueing and registration",
 [EMI, CB], [("registration", EMI + " EventArgsBuilder::send")], (), ["order of registration and queueing"])
prop("C18", "Ack ids are never reused and each ack callback is called at most once",
 """The ids written in events sent with a callback on one client are all different, for any sequence of emissions,
 including events whose builder is dropped unsent. A received ack calls exactly the callback stored for its namespace
 and id and removes it, so no callback is called twice; an ack nobody waits for is an error and calls nothing.""",
 ["histories"], "every sequence of emissions and received acks",
 "one test removes one callback twice from the map; ids are not tested",
 [EMI, CB, REC], [("id counter", LIB + " Client"), ("take on dispatch", CB)],
 [("id counter", "next ack id", LIB)], ["ids in emitted packets", "registry contents"])
prop("C19", "The frames of one packet are sent contiguously and in order",
 """All frames of one packet are put on the sending queue as a single item, text frame first. The sending task takes
 items from the queue in order and writes all frames of an item, in their order and without skipping any, before it
 writes anything else.""",
 ["schedules", "histories"], "every interleaving of emissions, replies and pongs",
 "needs concurrent senders of binary packets",
 [EMI, CON, REC], [("queue items are whole packets", EMI), ("write loop", CON + " process_websocket")], (), ["frames written to the socket"])
prop("C20", "Events go to the callback set for their namespace and name, else the fallback",
 """A received event calls the callback last set for exactly its namespace and its name; if there is none, the fallback
 last set for that namespace; if there is none either, nothing is called. Setting or clearing one of them affects
 only that namespace and name (or that namespace's fallback), and clearing does not remove anything else.""",
 ["histories", "inputs"], "every sequence of set, clear and received events over all namespaces and names",
 "one map test with two callbacks and two namespaces",
 [CB, REC], [("registry", CB), ("dispatch", REC)], [("registry", "namespace to events, fallback and acks", CB)], ["callback invoked"])
prop("C21", "Public callback and emit methods address the namespace and event they are given",
 """Each namespace-taking method of the client passes its namespace, event and callback unchanged to the registry or
 packet it concerns, and each short form does exactly the same with the namespace /. Setting methods set and
 clearing methods clear, for the event and fallback forms alike.""",
 ["inputs"], "every namespace, event name and callback", "the client's methods are not exercised by the tests at all",
 [LIB, EMI], [("forwarding methods", LIB)], (), ["registry after the call", "emitted packet"])
prop("C22", "A reply handle is given exactly for events with an id and answers that id",
 """An event callback receives a reply handle if and only if the event carries an id, together with all the event's
 arguments. A reply sent through the handle is one ack packet with that same id and namespace, in binary form exactly
 when requested, queued on the connection the event came from.""",
 ["inputs"], "every received event", "no test receives an event",
 [REC, EMI], [("handle creation", REC), ("reply", EMI + " AckBuilder, AckArgsBuilder")], (), ["callback arguments", "queued reply"])
prop("C23", "Every engine ping is answered by exactly one pong",
 """For each engine ping packet received, exactly one pong frame is put on the sending queue as an item of its own and
 nothing else is sent. No other received engine or websocket frame produces a pong.""",
 ["histories"], "every received frame", "no test runs the receive path",
 [REC, ENG], [("ping handling", REC)], (), ["items queued while processing a frame"])
prop("C24", "Connecting and closing never wait without a time limit",
 """While connecting, the wait for the websocket handshake and the wait for the open packet each end at the latest
 when the timeout expires, with a timeout error, and while closing so does the wait for the connection to finish.
 The timeout of a connection is the one given when it was created.""",
 ["schedules", "fault_sequences"], "every peer, including one that never answers", "no test has an unresponsive peer",
 [CON], [("races against a timer", CON)], (), ["every wait in connect and close"])
prop("C25", "Closing is done once, sends a close frame and reports the outcome",
 """The first close signals the connection task, waits for it and returns its outcome; every later close is refused
 with an error without signalling or waiting. On the signal the task writes every packet queued so far, then sends a
 websocket close frame, keeps processing received frames until the stream ends, and reports any error met.""",
 ["histories", "schedules"], "every sequence of close calls and every traffic before and after", "no test closes a connection",
 [CON, LIB], [("close signal", CON + " Connection::close"), ("shutdown", CON + " process_websocket")],
 [("close handle", "present until the first close", CON)], ["Client::close result", "frames written"])
prop("C26", "Receive and write errors end the connection and are reported",
 """Any error while decoding a frame, parsing a packet, reassembling it or dispatching it, any websocket read error,
 and any error writing a packet to the socket stops the connection task, which returns that error as its outcome.
 No such error is dropped, replaced by success or retried.""",
 ["inputs", "fault_sequences"], "every error at every step of the receive and send paths", "no test runs the connection task",
 [CON, REC], [("error propagation", CON + ", " + REC)], (), ["outcome of the connection task"])
prop("C27", "A peer cannot panic connecting or closing",
 """Whatever the peer does during connection, including closing the stream or failing before the open packet, connecting
 returns a client or an error and does not panic. Closing likewise returns success or an error whatever the peer does.""",
 ["schedules", "fault_sequences"], "every peer behaviour before, during and after the handshake", "no test has a misbehaving peer",
 [CON, LIB], [("error returns", CON + " Connection::new, close")], (), ["Client::connect, from_stream, close"])
prop("C28", "Connection URLs are validated and completed before use",
 """http and ws URLs connect with the ws scheme and https and wss URLs with wss; any other scheme, an unparsable URL and
 a URL without a host are refused with an error before anything is connected. The parameters EIO=4 and
 transport=websocket are each added exactly once to the request URL, which otherwise keeps the user's own, and the host and port given to the connector
 are those of the URL.""",
 ["inputs"], "every URL string", "one test parses three URLs",
 [LIB], [("URL checks", LIB + " parse_url")], (), ["URL used for the handshake", "connector arguments"])
prop("C29", "A sub-slice always shows exactly its window of the underlying data",
 """An owned sub-slice dereferences, mutably or not, to exactly the given range of its data, and conversions from a
 whole string or vector give the whole of it. Taking a sub-slice moves the window's start forward by the requested
 start, never lets its end pass the end of the previous window, and copies nothing; comparison and formatting see the
 window only.""",
 ["inputs"], "every data, range and chain of sub-slices", "one test takes one window of one string",
 [OWN], [("window arithmetic", OWN)], (), ["Deref, DerefMut, subslice, From, PartialEq, Display"])
prop("C30", "Everything handed to another thread is safe to send there",
 """Callbacks can only be registered if they may be sent to and run on another thread, and clients, reply handles and
 builders can themselves be moved to other threads, as can the wait for a client to close. Programs that violate this do not compile.""",
 ["programs"], "every program using the public API", "unit tests cannot contain programs that must not compile",
 [CB, EMI, LIB], [("bounds on callbacks", CB)], (), ["type checker verdict"])
prop("C31", "One-shot operations cannot be used twice",
 """An ack callback, a reply handle, a reply or event under construction and a pending partial packet are consumed by
 their final use: calling an ack callback twice, sending one reply or event twice, turning a handle into two replies,
 or finishing a packet twice does not compile.""",
 ["programs"], "every program using the public API", "unit tests cannot contain programs that must not compile",
 [CB, EMI, SER, DE], [("consuming methods", EMI)], (), ["type checker verdict"])
prop("C32", "Borrowed argument data cannot outlive its packet",
 """Packet data, arguments, and values deserialized from them that borrow text or bytes cannot be used after the packet
 they came from is gone. An event builder keeps its client exclusively borrowed until it is sent or dropped.""",
 ["programs"], "every program using the public API", "unit tests cannot contain programs that must not compile",
 [MOD, ARGS, EMI], [("lifetimes", ARGS)], (), ["type checker verdict"])
prop("C33", "Unchecked text conversion is only applied to UTF-8",
 """Wherever text is produced from bytes without a UTF-8 check, every byte was written there as text or by the JSON
 serializer, on every path, including after a failed argument was rolled back. No other memory-unsafe operation is
 reachable from the public API.""",
 ["inputs", "fault_sequences"], "every argument, namespace and event name, and every serialization failure",
 "undefined behaviour does not show in an assertion",
 [SER], [("unchecked conversions", SER)], (), ["unsafe operations"])
prop("C34", "Frames reach the packet layer once each, in arrival order",
 """Every frame read from the socket is processed exactly once, in the order read, before the next one is read, both in
 normal operation and while closing. Websocket-level close, ping and pong frames are accepted without effect.""",
 ["histories", "schedules"], "every frame sequence and interleaving with sending", "no test runs the connection task",
 [CON, REC], [("read loop", CON)], (), ["frames passed to frame processing"])
prop("C35", "A packet's arguments are the same by index and by iteration",
 """For every decoded packet with n arguments, get(i) gives an argument exactly for the indices i below n, iterating
 gives exactly get(0) to get(n-1) in this order and then ends, and is_empty says whether n is 0. Each argument is read
 from its own text alone, so what reading one gives does not depend on which others were read, or how.""",
 ["inputs", "histories"], "every decoded packet, every index and every number of iterator steps",
 "tests read at most three arguments of fixed packets",
 [ARGS, DE], [("argument access", ARGS + " Args::get, Args::iter, Args::is_empty")], (), ["Args and Arg methods"])
prop("C36", "The connection task lives no longer than its client",
 """Connecting spawns the connection task in such a way that only the returned client keeps it alive: the handle which
 ends the task when dropped is held by the client, is never detached, forgotten or leaked, and is dropped on every
 path on which connecting fails. When a close returns without having seen the task end, the client no longer holds
 the task, so the task is ended and its socket is released.""",
 ["schedules", "histories"], "every way connecting, using, closing and dropping a client can end",
 "a leaked task shows in no result; tests never drop a client",
 [CON, LIB], [("task handle", CON + " Connection"), ("spawning", CON + " process_websocket")],
 [("task handle", "ends the task when dropped", CON + " Connection")], ["the socket after the client is dropped or closed"])
prop("C37", "Emitting, replying and registering always return",
 """On a client in any state - with any callbacks, any pending acks, connected, disconnected, or closed with any result -
 starting an event, choosing its form, giving ack callbacks, adding arguments that serialize or not, sending and
 dropping it, and setting and clearing callbacks all return without panicking and without waiting; the same holds for
 a reply handle used at any time. Sending queues exactly one item, and nothing else queues any.""",
 ["histories", "schedules"], "every client state and every order of builder calls",
 "tests use an open client and one order of calls",
 [EMI, LIB, CB], [("emitting", EMI), ("registration", LIB)], (), ["returned values and queued items"])
prop("C38", "No operation blocks the executor",
 """No public function of the library, no future it returns and no part of the connection task sleeps, runs a nested
 executor, waits on a thread or a blocking channel, or does blocking input or output; waiting is only done by awaiting.
 Every loop awaits, consumes or counts something in each round, so that no loop spins.""",
 ["schedules", "inputs"], "every call site and loop reachable from the public functions",
 "a blocking call passes every test that has a thread to spare",
 [CON, LIB, REC], [("connecting, closing and the connection task", CON)], (), ["call graph from the public functions"])
prop("C39", "Clients and decoders are independent of each other and of the process",
 """The library keeps no state outside the values it returns: nothing reachable from its public functions uses a global
 or thread-local that can change after being initialised, reads the environment or the wall clock, draws random numbers or
 changes process-wide settings. What one client, decoder, packet or callback does thus cannot influence another that
 shares nothing with it, and the same calls give the same results.""",
 ["schedules", "histories"], "every static used and every call site reachable from the public functions",
 "interference shows only with several clients in one process",
 [DE, LIB, CON, ENG], [("write-once statics", DE + " regular expressions")], (), ["call graph and statics"])
prop("C43", "The open packet is read and written as the protocol lays it out",
 """An open packet is accepted exactly if its data is a json object with sid (a string), pingTimeout and pingInterval (unsigned 64-bit
 integers), which become the fields of Open unchanged; keys may come in any order and other keys are ignored. A missing key or a
 value of another type is refused with an error. Serializing an Open writes exactly those three keys with those values.""",
 ["inputs"], "every sequence of keys and kinds of values", "one fixed open packet is tried",
 [ENG], [("Open and its serde implementations", ENG)], (), ["parsed Open", "serialized keys"])
prop("C44", "Frames without an event or ack call nothing and change nothing",
 """A received frame that carries no event and no ack (websocket close, ping and pong; engine open, close, ping and pong; socket
 connect and disconnect, which are accepted in every namespace) or is refused calls no callback, changes no registered callback and no pending
 ack, and queues nothing but the pong for a ping. Frames other than messages leave a packet that is waiting for its attachments as it is. A
 received event changes no registered callback and no pending ack, and a received ack changes only its own entry.""",
 ["inputs", "histories"], "every frame, every registry and every state of the receiver",
 "tests send the frames they expect something from",
 [REC, CB], [("processing of frames", REC), ("registry", CB)], (), ["callbacks called", "registry before and after"])
prop("C45", "Announced numbers and nesting cannot exhaust memory, time or stack",
 """While receiving, no memory is reserved and no loop is counted by a number that a packet merely announces (such as its attachment
 count, an id or a placeholder): every reservation and every counted loop on the receive path is bounded by a constant or by the amount of data
 actually received. No function on that path calls itself, except over parsed json values, whose nesting the json parser limits.""",
 ["inputs"], "every frame and every number in it", "tests announce as many attachments as they send",
 [DE, REC, ENG], [("parsing and collecting attachments", DE + ", " + REC)], (), ["sizes of reservations and loops", "call graph"])
prop("C46", "The connection task never waits for one thing while deaf to another",
 """Whenever the connection task of an open connection waits for anything but a write it has begun, it waits for the next frame, the next
 queued item and the request to close together, however many frames and items came before, so that whichever comes first is acted on. Once it
 was asked to close, whenever it waits for anything but a write, it waits for the next frame.""",
 ["histories", "schedules"], "every wait of the task after every sequence of frames, items and close requests",
 "no test runs the connection task", [CON], [("select loop and closing loop", CON + " process_websocket")], (), ["what each wait of the task waits for"])
prop("C47", "Packets and arguments print as what they carry",
 """Printing a received packet or its data shows the name of its kind and, for an event or an ack, its id if it has one and its arguments,
exactly those its data gives. Arguments print as a bracketed, comma-separated list of each argument once, in order, however many there are,
and an argument prints as its JSON value with attachments filled in, or as its own text where it has no such value. Printing fails exactly if a
write fails, and never panics.""",
 ["inputs"], "every received packet, every list of arguments and every writer, failing or not",
 "no test prints a packet, and what is printed depends on ids, arguments and attachments", [MOD, ARGS],
 [("Display", MOD + " Packet, Data; " + ARGS + " Args, Arg")], (), ["text written to the formatter"])
prop("C48", "Clones and comparisons of packets and messages are faithful",
 """A clone of a received packet, of its data or arguments, of an engine packet, message or open packet, of a sub-slice or of an event
callback is the same as the original in every part and leaves the original as it was. Two engine packets, messages or open packets compare
equal exactly if they are of the same kind and have equal contents.""",
 ["inputs"], "every value of these types and every pair of such values",
 "tests compare few values of equal shape, and none clones a packet or sub-slice", [ENG, MOD, ARGS, OWN, CB],
 [("Clone and PartialEq, derived or written", ENG + ", " + MOD + ", " + ARGS + ", " + OWN + ", " + CB)], (), ["the clone, the result of =="])
prop("C49", "Connecting succeeds once every step has, and names the step that failed",
 """Connecting returns a client exactly if the URL was accepted, the connector (if one is given) returned a stream, the websocket handshake over
that stream succeeded, the connection task was started and the open packet was received, each done once and in this order. Where one of them fails
its own error is returned, in the variant for that step, a URL error with the URL that was given, and no later step is begun. The client returned
queues to and closes the task that was started on that websocket, and shares its callbacks with it.""",
 ["inputs", "schedules", "fault_sequences"], "every outcome of every step, in every order in which the waits of connecting can end",
 "tests never connect, and only a failing URL is tried", [LIB, CON], [("connecting", LIB + " connect, from_stream, new; " + CON + " new")], (),
 ["outcome of connecting", "calls of the connector", "handshakes", "spawned tasks"])
prop("C50", "A refusal names a true reason, and what was refused",
 """Where the engine decoder refuses a frame, its error is true of the frame: received before the open packet, after the close packet, a second open
packet, neither text nor binary, an open packet with invalid JSON (with the JSON error), or otherwise malformed; an error that carries a frame carries
that frame. Where a packet is refused, the error says truthfully that it is a binary message, is malformed, has data its kind must not have or lacks
data it needs (naming its kind), has invalid JSON (with that JSON text and its error), has a text for an attachment, or has another number of
attachments than it announced (with both numbers). An error that carries the text of what was refused carries all of it and nothing else.""",
 ["inputs", "histories"], "every frame in every state of the decoder, every packet text, every list of attachments",
 "tests check that decoding fails, not what the error says", [ENG, DE],
 [("Decoder::decode, deserialize, deserialize_partial", ENG + ", " + DE)], (), ["the error returned, its variant and its contents"])
prop("C51", "A connection ends only for a reason, and names it",
 """The connection task returns success only when the stream of frames has ended, and an error only when processing a frame, reading from or writing
to the socket has failed: the first such error itself, in the variant for that stage. Processing a frame fails only with the error of the engine
decoder or the packet parser which refused it, with the error of reading an event's first argument as a string (any string can be read), or for an
event without arguments or an ack nobody waits for, with that packet in the error; every other frame is accepted, in particular the ack of every
event sent with a callback.""",
 ["inputs", "schedules", "fault_sequences"], "every frame in every state of the receiver, every outcome of reading and writing at every point of the connection",
 "the tests of the client do not connect, and a spurious end needs a particular frame or moment", [REC, CON],
 [("process_websocket_packet and the connection task", REC + ", " + CON)], (), ["outcome of the task", "outcome of processing a frame"])
prop("C40", "A value serialized and deserialized again is equal to the original",
 """Any value sent as an argument with attachments and read back with its own type is equal to the value sent.""",
 ["inputs"], "every value of every type with matching Serialize and Deserialize", "only fixed values are tried",
 [SA, DA], [("attachment serializer and deserializer", SA + ", " + DA)], (), ["round trip"])
prop("C41", "A connected client keeps making progress",
 """Every queued packet is eventually written and every received frame eventually processed, whichever of the two is
 busier, as long as the socket makes progress and callbacks return.""",
 ["schedules"], "every schedule of socket readiness", "liveness over infinite runs",
 [CON], [("select loop", CON)], (), ["frames written and processed"])
prop("C42", "A peer that stops answering is detected by heartbeat",
 """If nothing is received for the negotiated ping interval plus timeout, the connection ends with an error.""",
 ["schedules"], "every silent peer", "needs real time",
 [REC, CON], [("not implemented: TODO in the receiver", REC)], (), ["outcome of the connection task"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P))

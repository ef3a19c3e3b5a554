#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

B = "src/psrpcore/"
T = "src/psrpcore/types/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


prop("P01", "Exactly-once, in-order, intact message delivery for any chunking",
     "Every message queued on one side of a session is turned into exactly one event on the other side, with its content, type, pipeline and order unchanged, however small or varied the send sizes are, however the resulting bytes are cut into pieces when they are handed to the receiver, and however often the receiver polls for events in between. "
     "No event appears before all of its bytes have arrived, and none is lost, duplicated, reordered or invented, over any length of session.",
     ["inputs", "schedules", "histories"],
     "every sequence of messages and sizes in both directions, every sequence of send limits >= 22 bytes or no limit, every partition of the byte stream into receive calls, every interleaving of sends, receives and polls",
     "The tests move whole payloads between the peers with a handful of fixed sizes; cut positions, send limits and poll points form an unbounded space, and off-by-one errors only show where a cut meets a header or fragment boundary.",
     [B + "_base.py", B + "_payload.py"],
     [("fragmenting of queued messages", B + "_base.py data_to_send / " + B + "_payload.py PSRPMessage.fragment"),
      ("receive buffer reassembly", B + "_base.py next_event")],
     [("send buffer", "messages queued and not fully sent", B + "_base.py"), ("receive buffer and incoming fragments", "bytes not yet a message", B + "_base.py")],
     ["data_to_send return values", "next_event return values"])

prop("P02", "Wire format, size limit and targeting of outgoing payloads",
     "Every payload handed out for sending is a concatenation of well-formed fragments that never exceeds the requested limit, consists only of data for the single stream type and single pipeline (or pool) it is labelled with, and makes progress whenever something is queued. "
     "Decoded by an independent implementation of the protocol, the fragments of each message carry one session-unique increasing object id, consecutive fragment ids from zero, start and end marks exactly on the first and last fragment, and a message header with the right direction, message type, pool id and pipeline id followed by the complete UTF-8 XML content.",
     ["inputs", "histories", "configurations"],
     "every history of queued messages (pool and pipeline messages, host calls and responses, both directions), every send limit, partially sent messages included",
     "Both ends of the existing tests are this library, so a symmetric encoding error is invisible, and limits are only tried at a few values.",
     [B + "_base.py", B + "_payload.py"],
     [("payload assembly and limit accounting", B + "_base.py data_to_send"), ("fragment and message headers", B + "_payload.py create_fragment, create_message")],
     [("object id counter", "one id per message in a session", B + "_base.py")],
     ["bytes, stream type and pipeline id of each payload"])

prop("P03", "A damaged or unexpected message never harms its neighbours",
     "When fragments of several messages arrive interleaved, each message is reassembled from its own fragments only. "
     "When an arriving fragment or message is invalid (out-of-sequence fragment, unknown message type, truncated header, malformed content, a pipeline that does not exist), exactly that one is reported by an error from the poll that processes it, it produces no event and no state change, and every other message, before or after, is still delivered once, intact and in order.",
     ["fault_sequences", "inputs", "histories"],
     "every interleaving of fragments of valid messages and every position and kind of injected invalid fragment or message within the fault classes named in the statement",
     "The tests inject single faults into otherwise idle sessions and stop at the exception; they do not look at what the fault does to the surrounding traffic.",
     [B + "_base.py", B + "_payload.py", B + "_server.py", B + "_client.py"],
     [("per object reassembly and fragment order check", B + "_base.py next_event"), ("header parsing", B + "_payload.py unpack_fragment, unpack_message")],
     [("incoming fragments", "partial messages by object id", B + "_base.py")],
     ["events and exceptions of each next_event call"])

prop("P04", "Every string survives serialization exactly and yields well-formed XML",
     "Any text, including control characters, lone surrogates, characters outside the BMP, XML noncharacters and text that looks like an escape sequence, comes back as the identical sequence of UTF-16 code units wherever text is carried: string-like values, property names, dictionary keys and values, display text and record fields. "
     "The output is always well-formed XML, contains escape sequences only where the protocol's rules require them, and escape sequences written by other implementations (any hex case) are decoded by the same rules.",
     ["inputs"],
     "all strings over all code points, at every place a string can occur",
     "Tests use a few dozen fixed strings; escaping errors depend on the adjacency of characters (an underscore before an x, a surrogate next to a pair, an escape spanning other text).",
     [T + "_serializer.py"],
     [("string escaping and unescaping", T + "_serializer.py _serialize_string, _deserialize_string")],
     [], ["serialized XML", "deserialized values"])

prop("P05", "Primitive values keep their exact type and value across the wire",
     "Every value of every primitive type (booleans, characters, all integer widths, floats, decimals, date-times with offset and 100 ns precision, durations, GUIDs, URIs, versions, XML, script blocks, byte arrays, and the native Python equivalents) is written with the element tag and lexical form the protocol defines and is read back as the same type with the same value. "
     "Values outside the range of a bounded type are refused when they are created instead of being wrapped or truncated.",
     ["inputs"],
     "the full value range of every primitive type, extremes and fractional digits included, and the lexical variants other implementations may send",
     "Tests check a few literals per type; faults sit at range ends, in sign, padding, fraction and rounding handling.",
     [T + "_serializer.py", T + "_primitive.py"],
     [("primitive serialization", T + "_serializer.py _Serializer.serialize, _serialize_datetime, _serialize_duration"), ("primitive parsing", T + "_serializer.py _Serializer.deserialize, _deserialize_datetime, _deserialize_duration"), ("range checks", T + "_primitive.py PSIntegerBase, PSChar")],
     [], ["serialized element", "deserialized value and type", "constructor result"])

prop("P06", "Object graphs survive serialization: structure, types and identity",
     "Any object graph built from lists, stacks, queues, enumerables, dictionaries, enums and flags, plain Python objects, custom and known types, with adapted and extended properties, type name lists and display text, nested to any depth, comes back with the same structure, order, values, type names and text; known types come back as instances of their class and unknown types are marked as deserialized. "
     "An object (other than a list or dictionary, which are written in full each time) that occurs several times in one document is written once and referenced afterwards, so it comes back as one object, while distinct objects stay distinct even when they are equal.",
     ["inputs"],
     "all finite object graphs over the supported types, with arbitrary sharing of objects and arbitrary mixes of type name lists",
     "Tests serialize one object or a small fixed nest at a time; reference numbering, type name references and property groups only go wrong in particular combinations.",
     [T + "_serializer.py", T + "_collection.py", T + "_enum.py", T + "_base.py", T + "_complex.py"],
     [("object and type name references", T + "_serializer.py _get_ref_id, _update_value_ref, TN/TNRef handling"), ("rehydration", T + "_base.py TypeRegistry"), ("containers and properties", T + "_serializer.py _Serializer")],
     [], ["serialized XML", "deserialized graph"])

prop("P07", "Serialization is pure and instances do not share state",
     "Serializing or deserializing a value never changes that value, its class, or the outcome of any later operation: the same value serialized again gives the same bytes, two values give the same result in either order, and a document gives equal results each time it is read. "
     "Changing the properties, type names or text of one object (including received ones) never affects another object, its class, or what other sessions send and receive.",
     ["histories", "inputs"],
     "all histories of serialize, deserialize and object modification calls over all supported values",
     "State leaks need a history: one operation that leaves something behind and a later one that is affected; the tests start each case from a clean object.",
     [T + "_serializer.py", T + "_base.py", T + "_primitive.py"],
     [("per instance copy of the class metadata", T + "_base.py PSObjectMeta.set_instance, PSObject.__new__"), ("serializer state created per document", T + "_serializer.py serialize, deserialize")],
     [("class level metadata", "type names and properties shared by all instances as a template", T + "_base.py")],
     ["serialized bytes before and after", "object state before and after"])

prop("P08", "Opening a session makes both sides agree on its parameters",
     "After the opening exchange completes, both sides are opened, know each other's protocol, PowerShell and serialization versions, use the same pool id, and agree on the runspace limits, apartment state, thread options, host information and application arguments the client asked for and on the private data the server provided, whatever those values are.",
     ["configurations", "inputs", "schedules"],
     "all client and server configurations (versions, host info with all default data, limits, enums, arguments of any supported value) and all chunkings of the exchange",
     "Tests open sessions with default or a few fixed configurations.",
     [B + "_client.py", B + "_server.py", B + "_base.py", B + "_events.py", T + "_host.py", T + "_psrp.py"],
     [("client open messages", B + "_client.py ClientRunspacePool.open"), ("server processing", B + "_server.py _process_SessionCapability, _process_InitRunspacePool"), ("host info conversion", T + "_host.py HostInfo")],
     [("negotiated capability", "peer versions", B + "_base.py")],
     ["public attributes of both pools", "events of the exchange"])

prop("P09", "Runspace pool lifecycle follows the state machine on both sides",
     "In every history of calls and messages a runspace pool is in exactly the state the lifecycle defines: an operation that is not allowed in the current state raises the documented error naming the state and changes nothing, an allowed one moves to the defined state and notifies the peer exactly when the protocol says so, and after the notifications are processed the client's view equals the server's announced state, including a broken pool with its reason. "
     "A pool cannot be closed while it still has pipelines, and repeated calls of the idempotent operations send nothing twice.",
     ["histories", "schedules"],
     "all finite sequences of pool operations on client and server with messages delivered at arbitrary points",
     "Tests try individual illegal calls; the state space is the product of both pools, the pending messages and the call history.",
     [B + "_base.py", B + "_client.py", B + "_server.py", B + "_exceptions.py"],
     [("state guards", B + "_base.py close, disconnect, reconnect; " + B + "_client.py open, connect; " + B + "_server.py connect, set_broken"), ("state announcements", B + "_server.py _change_state")],
     [("state", "runspace pool state", B + "_base.py")],
     ["state after each call", "raised errors", "state events"])

prop("P10", "Pipeline lifecycle follows the state machine on both sides",
     "In every history each pipeline is in exactly the state its lifecycle defines: start, input, output, host call, stop, complete and close are accepted in the documented states only and otherwise raise the documented error without any effect; accepted ones announce the new state to the client exactly once, in order with the pipeline's other data, with the reason when it was stopped. "
     "The client's view converges to the server's announced states, pipelines appear in and leave the pool's table exactly when created and closed, and several pipelines never influence each other's state.",
     ["histories", "schedules"],
     "all finite sequences of pipeline operations over several pipelines on both sides with messages delivered at arbitrary points",
     "Tests walk the happy path and single illegal calls on one pipeline.",
     [B + "_base.py", B + "_client.py", B + "_server.py"],
     [("state guards", B + "_base.py Pipeline.begin_stop, close; " + B + "_client.py start, send, send_eof; " + B + "_server.py ServerPipeline"), ("state announcements", B + "_server.py ServerPipeline._change_state")],
     [("state", "pipeline invocation state", B + "_base.py"), ("pipeline table", "pipelines of a pool by id", B + "_base.py")],
     ["state after each call", "raised errors", "state events"])

prop("P11", "A refused operation has no effect",
     "Whenever a public operation raises an error (wrong state, wrong argument, unsupported peer version, unknown call id, missing session key, value that cannot be serialized), nothing was queued or sent, no state, limit, pending request or message numbering changed, and the session continues exactly as if the call had not been made.",
     ["histories", "fault_sequences", "inputs"],
     "all refused calls at all points of all histories, compared with the same history without them",
     "Tests check that the error is raised, not that the object is unchanged afterwards, and only from a few states.",
     [B + "_base.py", B + "_client.py", B + "_server.py", B + "_command.py"],
     [("validation before effects", B + "_client.py, " + B + "_server.py public methods"), ("serialization before queueing", B + "_base.py prepare_message")],
     [("send buffer, counters, pending calls", "what a refused call must not touch", B + "_base.py")],
     ["bytes sent after the refused call versus without it", "public attributes"])

prop("P12", "Runspace requests and replies are matched one to one",
     "Every request of the client about runspaces (changing the minimum or maximum, asking for the available count, resetting) reaches the server once with its own call id and value; the server can answer each outstanding request exactly once, in any order, with the kind of answer that fits it, and cannot answer anything else. "
     "A limit changes to the requested value on a side exactly when the accepting answer is made (server) or processed (client), refusals change nothing, and before opening or for an unchanged value no request is made.",
     ["histories", "schedules"],
     "all sequences of requests and answers with any number outstanding, answered in any order and with any delivery timing",
     "Tests make one request at a time and answer it at once.",
     [B + "_client.py", B + "_server.py", B + "_events.py"],
     [("call id correlation", B + "_client.py _process_RunspaceAvailability, set_max_runspaces; " + B + "_server.py runspace_availability_response")],
     [("pending call ids", "requests that have not been answered", B + "_base.py")],
     ["request and availability events", "min/max runspaces on both sides", "raised errors"])

prop("P13", "Host calls and responses are matched one to one",
     "Every host call reaches the client once, for the pool or pipeline it was made on; a call that expects a result has a session-unique id and can be answered exactly once, with a value or an error, in any order relative to other calls, and the answer reaches the server once with the same id, method, pool or pipeline, and content. "
     "A call to a void method carries the marker id and cannot be answered; answering an unknown or already answered call is an error that sends nothing, and a failed attempt to answer leaves the call answerable.",
     ["histories", "schedules"],
     "all sequences of host calls on the pool and on several pipelines, answered in any order, with any delivery timing",
     "Tests make one host call and answer it at once.",
     [B + "_client.py", B + "_server.py", B + "_host.py", B + "_events.py"],
     [("call id correlation", B + "_server.py host_call; " + B + "_client.py host_response")],
     [("pending host calls", "calls not yet answered", B + "_client.py")],
     ["host call and response events", "raised errors"])

prop("P14", "Host call parameters and results are conveyed faithfully",
     "For every host method, the parameters the server passes (text, numbers, colours, coordinates, sizes, rectangles, buffer cells and their contents, secure strings, credentials, field and choice descriptions, progress records) arrive at the client with the same values, types and order, and the result or error the client returns arrives at the server likewise, for the raw calls as well as for the convenience requestor and responder.",
     ["inputs", "configurations"],
     "all host methods and all parameter and result values in their domains",
     "Tests use one example per method.",
     [B + "_host.py", B + "_events.py", T + "_host.py", T + "_enum.py"],
     [("encoding of host types", T + "_host.py, " + B + "_host.py ServerHostRequestor, ClientHostResponder"), ("decoding of parameters and results", B + "_events.py RunspacePoolHostCallEvent and relatives, " + B + "_host.py")],
     [], ["parameters of host call events", "results of host response events"])

prop("P15", "A pipeline definition arrives as the client built it",
     "The pipeline the server receives has exactly the commands the client added, in order and split into the same statements, each with its text, script flag, scope setting, named parameters, switches and positional arguments with their values, and result merging, as well as the same history, input, nesting, stream option, apartment and host settings; merge settings the peer's protocol version does not know are left out and nothing else is. "
     "The same holds for the fields of a command metadata request.",
     ["inputs", "configurations"],
     "all pipeline definitions (any number of statements, commands, parameters, values, redirections) and all protocol versions of the peer",
     "Tests build a few fixed pipelines against one or two versions.",
     [B + "_command.py", B + "_pipeline.py", B + "_client.py", B + "_events.py"],
     [("command conversion", B + "_command.py ToPSObjectForRemoting, FromPSObjectForRemoting"), ("pipeline conversion", B + "_pipeline.py PowerShell, GetMetadata")],
     [], ["metadata of the server pipeline", "create pipeline event", "independently decoded wire content"])

prop("P16", "Every stream record arrives unchanged and in order",
     "Everything the server writes for a pipeline or pool (output, errors, debug, verbose, warning, progress and information records, user events, state changes with their reason) and everything the client sends as input arrives as an event of the matching kind on the same pipeline, in the order written, with every field equal to what was written, including the invocation details the protocol carries, error category and details, target objects, tags and times. "
     "Output and input values of any kind, nothing included, arrive as the same value.",
     ["inputs", "histories"],
     "all sequences of stream writes over all field values",
     "Tests write each kind of record once with fixed values.",
     [B + "_server.py", B + "_client.py", B + "_events.py", T + "_complex.py", T + "_psrp.py"],
     [("record messages", B + "_server.py ServerPipeline.write_*"), ("record parsing", B + "_events.py, " + T + "_complex.py FromPSObjectForRemoting / ToPSObjectForRemoting")],
     [], ["events on the receiving side"])

prop("P17", "Secure strings are never sent in clear and decrypt to the same text",
     "A secure string passed anywhere in a session is only ever transmitted encrypted under the session key, and decrypts on the other side to exactly the original text, whatever the text; neither the session key nor the text ever appears in the transmitted data, and a client that has not yet exchanged a key cannot send one: the attempt fails and sends nothing. "
     "The key exchange, started by either side, once or repeatedly and at any time, leaves both sides with the same fresh key for that session only.",
     ["inputs", "histories", "schedules"],
     "all texts and positions of secure strings, all key exchange orders, several concurrent sessions",
     "Tests exchange one key and one string.",
     [B + "_crypto.py", B + "_client.py", B + "_server.py", T + "_primitive.py", T + "_serializer.py"],
     [("key exchange", B + "_client.py exchange_key, _process_EncryptedSessionKey; " + B + "_server.py request_key, _process_PublicKey"), ("encryption", B + "_crypto.py PSRemotingCrypto"), ("secure string serialization", T + "_primitive.py PSSecureString")],
     [("session key", "AES key shared after the exchange", B + "_base.py")],
     ["all transmitted bytes", "decrypted values"])

prop("P18", "Concurrent pipelines and sessions are isolated from each other",
     "With any number of pipelines in a pool and any number of pools in a process, used in any interleaving, each pipeline's and each pool's events, states, limits, pending calls, keys and message numbering are exactly those it would have if it were used alone.",
     ["histories", "schedules"],
     "all interleavings of operations over several pipelines and sessions, compared with each one executed alone",
     "Tests use one session and mostly one pipeline at a time.",
     [B + "_base.py", B + "_client.py", B + "_server.py", T + "_base.py"],
     [("routing by pipeline id", B + "_base.py data_to_send, _process_message; " + B + "_client.py _process_PipelineState"), ("per pool state", B + "_base.py RunspacePool.__init__")],
     [("pipeline table", "pipelines by id", B + "_base.py")],
     ["per session event traces", "per session wire traces"])

prop("P19", "CLIXML documents and shell output are read back as written",
     "Everything written to a CLIXML shell, over any number of partial retrievals, is read back by the output parser as the same objects and records, in the same order, each in the stream it was written to, with the header exactly once at the start and nothing when there was nothing to write. "
     "A CLIXML document of any values reads back as those values with their streams.",
     ["inputs", "histories"],
     "all sequences of writes and retrievals over all values and streams, with and without the header line",
     "Tests compare a few fixed documents (and several need PowerShell itself).",
     [B + "_clixml_shell.py", T + "_serializer.py"],
     [("shell output", B + "_clixml_shell.py ClixmlShell"), ("parser", B + "_clixml_shell.py ClixmlOutput.from_clixml"), ("documents", T + "_serializer.py serialize_clixml, deserialize_clixml")],
     [], ["emitted text", "parsed output"])

prop("P20", "Arithmetic and ordering of numeric, time and version types is exact",
     "Operations on the bounded integers give the exact integer result in the type of the left operand or are refused when it does not fit that type; date-times and durations add and subtract exactly to the nanosecond, and durations negate and compare exactly; versions order and compare by their components; equal values that are hashable have equal hashes; and conversions to text show the exact value.",
     ["inputs"],
     "all operands of all operators of these types, including mixed operands with the plain Python types",
     "Tests check a few literal operands.",
     [T + "_primitive.py"],
     [("integer operators", T + "_primitive.py PSIntegerBase"), ("time arithmetic", T + "_primitive.py PSDateTime, PSDuration"), ("version comparison", T + "_primitive.py PSVersion")],
     [], ["results of the operators"])

prop("P21", "Object properties behave as a consistent property bag",
     "For every history of adding, replacing, reading and assigning note, alias and script properties on objects of plain and declared types, reading a property (as attribute or item) gives the last value assigned, converted to the declared type, extended properties take precedence over adapted ones, aliases follow their target, script properties run their getter and setter, duplicates are refused unless forced, and construction accepts exactly the declared properties and demands the mandatory ones. "
     "Type checks by type name follow the object's list of type names.",
     ["histories", "inputs"],
     "all finite histories of property operations over objects of arbitrary declared types",
     "Tests apply single operations to single objects.",
     [T + "_base.py"],
     [("attribute resolution", T + "_base.py PSObject.__getattribute__, __setattr__"), ("property kinds", T + "_base.py PSPropertyInfo and subclasses, add_member"), ("construction", T + "_base.py PSObject.__init__")],
     [("properties", "adapted and extended property lists of an instance", T + "_base.py")],
     ["values read", "raised errors"])

prop("P22", "Disconnecting and reconnecting preserves the session",
     "After a pool is disconnected and reconnected by the same client, or connected to by a new client that knows the pool id, both sides are opened and agree on runspace limits and the server's private data, and everything done afterwards (pipelines, limits, host calls, key exchange, records) behaves as in a session that was never disconnected; what the server's pipelines wrote while it was disconnected arrives once and in order. "
     "A connection attempt for a different pool is refused and leaves the server waiting, with nothing about it changed.",
     ["histories", "configurations", "fault_sequences"],
     "all histories containing any number of disconnect and reconnect steps at any point between messages, and connect steps when no message is under way (but with messages the server has yet to send)",
     "Tests disconnect once from an idle session.",
     [B + "_base.py", B + "_client.py", B + "_server.py"],
     [("reconnection", B + "_base.py disconnect, reconnect; " + B + "_client.py connect; " + B + "_server.py connect, _process_ConnectRunspacePool")],
     [("state", "runspace pool state", B + "_base.py")],
     ["states, limits and private data on both sides", "events after reconnection"])

prop("P23", "Describing and logging anything works, changes nothing and shows no secret",
     "For every value, record, event, pipeline, pool, host object and error the library hands out or accepts, including empty and self-referential ones, repr, str, format and reading public attributes succeed, give the same answer when repeated, and leave the thing and the session as they were: what is sent, reported and stored afterwards is the same as if nobody had looked, and the same as with the library's log switched on. "
     "Neither the descriptions nor any log line contain the text of a secure string, the session key or the private key.",
     ["inputs", "histories"],
     "all values and records, all sessions, with descriptions taken and logging enabled at any point",
     "Tests compare a few literal repr strings and never enable the log.",
     [T + "_base.py", T + "_complex.py", T + "_primitive.py", T + "_collection.py", B + "_events.py", B + "_pipeline.py", B + "_base.py"],
     [("object descriptions", T + "_base.py PSObject.__repr__, PSObjectMeta.to_string"), ("event descriptions", B + "_events.py"), ("log lines", B + "_base.py data_to_send, next_event, prepare_message, _process_message"), ("secrets", T + "_primitive.py PSSecureString.__repr__, __str__")],
     [], ["descriptions and log lines", "bytes, events and state of a twin execution"])

prop("P24", "What is over is released: memory does not grow with the history of a session",
     "However many pipelines, records, requests, host calls, events, key exchanges, reconnections, refused calls and rejected messages a session has seen, once everything queued was delivered, every request and call answered and every pipeline closed on both sides, and equally while one pipeline stays open and keeps streaming, neither the two pools nor the library's module and class level state hold on to any of it: the memory reachable from them does not grow with the number of rounds, objects the user has dropped are freed, and so are the pools themselves.",
     ["histories"],
     "all histories made of rounds that end with nothing open but at most one streaming pipeline, of any length",
     "Tests run one short session each and never look at what stays behind.",
     [B + "_base.py", B + "_client.py", B + "_server.py", T + "_base.py", T + "_serializer.py"],
     [("partial messages", B + "_base.py next_event"), ("open requests and calls", B + "_client.py host_response, _process_RunspaceAvailability; " + B + "_server.py runspace_availability_response"), ("pipeline table", B + "_base.py Pipeline.close"), ("type registry", T + "_base.py TypeRegistry")],
     [("tables", "tables of fragments, messages, calls, handlers and pipelines of a pool", B + "_base.py")],
     ["objects and bytes reachable from pools and from the library's globals", "weak references to dropped objects"])

prop("P25", "Equivalent forms written by other implementations are understood the same",
     "A message, value or CLIXML document means the same however an independent implementation chose to write it: with attributes in another order or quoting, character references, CDATA sections, comments, processing instructions, whitespace between elements, an XML declaration or byte order mark; with escape sequences where none are needed; with numbers, truth values, date-times, ids and byte arrays in another form of the same value (signs, zeros, letter case, line breaks); with other reference numbers and with type names in full or by reference; with the parts of an object or the properties of a protocol message in another order, the display text of a protocol enumeration left out, or properties added that a newer version may send; with other object ids, other fragment boundaries, and the reserved bits of a fragment set. "
     "Read in any of these forms it gives the same values, identities, events, state and further traffic as in the form the library itself writes.",
     ["inputs", "histories", "configurations"],
     "all values, documents and sessions, every message of either direction rewritten in any combination of these freedoms",
     "The tests feed the library's own output back to it and a few captured documents; nothing else exercises a writer with other habits.",
     [B + "_base.py", B + "_payload.py", B + "_events.py", T + "_serializer.py", B + "_clixml_shell.py"],
     [("reading of CLIXML", T + "_serializer.py _Serializer.deserialize, deserialize_clixml"), ("reading of fragments and messages", B + "_payload.py unpack_fragment, unpack_message; " + B + "_base.py next_event, _process_message"), ("events from properties", B + "_events.py")],
     [("reference tables", "objects and type names by their number", T + "_serializer.py")],
     ["values and events read from the rewritten form", "state and bytes sent afterwards"])
prop("P26", "Typed values can be used as the Python values they stand for",
     "Texts, byte arrays, numbers, ids, date-times, durations, lists, stacks, dictionaries and queues can be used wherever the Python value they stand for can be used: every way to create one, every native operation and method (index, slice, iterate, compare, hash, format, search, convert, change in place), alone or in a sequence, gives the same result, or is refused for the same reason, as with Python's own str, bytes, int, float, Decimal, UUID, datetime, timedelta, list, dict and Queue; integers within the range of their type. "
     "Parts of texts and bytes keep their type, a date-time with replaced parts or in another time zone keeps its nanoseconds, every resulting value of the library has properties of its own, and what is done to the content leaves the properties of the object alone. "
     "Documented differences are excluded: text as an index names a property, display text of date-times, durations and characters, refused overflows, nanoseconds, copies.",
     ["inputs", "histories"],
     "all values of these types, all their public methods and operators with any arguments, all sequences of changes",
     "The tests sample the arithmetic and a few methods of each type; results and refusals depend on the values, the arguments and on what was done before.",
     [T + "_primitive.py", T + "_collection.py", T + "_base.py"],
     [("native behaviour of primitive types", T + "_primitive.py PSIntegerBase, PSStringBase, PSByteArray, PSDateTime, PSDuration, PSGuid, PSDecimal"), ("native behaviour of containers", T + "_collection.py _PSListBase, PSDictBase, PSQueueBase")],
     [("content and properties", "the native content of a value and its PSObject properties next to it", T + "_base.py")],
     ["results and refusals of operations", "content and properties afterwards"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

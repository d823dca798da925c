"""Properties: the single source of properties.jsonl and MANIFEST.json."""

R = "runtimepy/"
TYPESTATE = "path-sensitive typestate/dataflow over the syntax tree (static analysis)"

PROPS: list[dict] = []
NOT_APPLICABLE: list[dict] = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique=TYPESTATE, level="proof", note="", state=()):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe,
            technique=technique, level=level, note=note, state=state,
        )
    )


def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, text, why, files, mechanism, observe)
    PROPS[-1]["na"] = reason


prop(
    "C01",
    "Every write of a primitive is stored, timestamped and notified once",
    "Assigning a new value to a primitive (by assignment, call, toggle, set/clear, increment, scaled write or decoding received bytes) stores exactly that value and stamps its update time (the given timestamp, else the instance's time source) before any callback runs. "
    "If and only if the value changed (and isn't NaN), every registered callback runs once with the old and new value; one-shot registrations are then retired and lasting ones kept. "
    "No code in the system changes a primitive's stored value while bypassing this, and registration identifiers are never reused within an instance nor do removals affect other registrations.",
    ["inputs", "histories"],
    "all write paths, all primitive kinds, all values and registration histories",
    "Tests write a handful of values through a few of the write paths with at most a couple of callbacks; bypassing writers anywhere in the package would only show up as a missing event on one channel.",
    [R + "primitives/base.py", R + "primitives/bool.py", R + "primitives/int.py", R + "primitives/float.py", R + "net/connection.py", R + "channel/environment/telemetry.py"],
    [("single write entry point", R + "primitives/base.py: set_value"), ("registration map with one-shot flag", R + "primitives/base.py: register_callback/remove_callback")],
    ["arguments and count of callback invocations", "last_updated_ns and value right after a write"],
    note="All paths of the write entry point per primitive class plus a who-may-write rule over every function; what user callbacks do is not modelled.",
)
prop(
    "C02",
    "Scoped registrations and resources are released on every exit",
    "Whatever a scoped operation acquires for its block (change registrations, log handlers, background tasks, child processes, task groups, mode flags, log/telemetry streams) is really held while the block runs and released on every way out of it: normal completion, exception or cancellation. "
    "A background connection started for a block is disabled before it is waited for, and a scoped operation's result is never discarded without being entered.",
    ["fault_sequences", "schedules", "programs"],
    "every exit (return, exception, cancellation at any suspension point) of every scoped operation in the package",
    "Tests leave these blocks normally; leaks on exceptional or cancelled exits are silent and accumulate.",
    [R + "primitives/base.py", R + "channel/event/__init__.py", R + "channel/registry.py", R + "channel/environment/telemetry.py", R + "mixins/finalize.py", R + "subprocess/program.py", R + "subprocess/peer.py", R + "subprocess/__init__.py", R + "net/connection.py", R + "net/udp/tftp/__init__.py", R + "task/basic/manager.py", R + "channel/environment/command/__init__.py"],
    [("try/finally in context managers", R + "primitives/base.py: callback"), ("exit stacks", R + "subprocess/program.py: streaming_events")],
    ["registered callbacks, log handlers, tasks and processes left after the block"],
    note="All paths of all context managers found in the package, with exception edges at every call/await; library context managers are trusted.",
)
prop(
    "C03",
    "Disabling and processing a connection is complete, owned and idempotent",
    "Disabling an enabled connection runs its shutdown hook once, cancels every unfinished task it owns and leaves it disabled, not initialized and with its disabled signal set; disabling a disabled connection does nothing, and losing the transport disables the connection. "
    "Processing starts only on an enabled connection, starts exactly the reader, initialization, and the writers, timed disable and stop-signal watcher that were asked for, owns all of them, waits for all of them, and only then closes the transport and signals exit. "
    "Initialization that fails, raises or is interrupted disables the connection, and always signals those who wait for it.",
    ["schedules", "fault_sequences", "histories"],
    "all orders of disable/transport loss/stop signal/initialization outcome, for all connection kinds",
    "Tests drive a few orderings over loopback; a leaked task, a double shutdown hook or a waiter that hangs needs a particular interleaving.",
    [R + "net/connection.py", R + "net/tcp/connection.py", R + "net/tcp/protocol.py", R + "net/udp/connection.py", R + "net/udp/protocol.py", R + "net/websocket/connection.py"],
    [("enabled guard", R + "net/connection.py: disable"), ("task ownership and whole-group wait", R + "net/connection.py: process"), ("initialization signal", R + "net/connection.py: _async_init")],
    ["enabled state, disabled/initialized/exited signals, pending tasks, transport state"],
    note="All paths, for each distinct set of overrides among the connection classes; asyncio semantics are trusted.",
)
prop(
    "C04",
    "Received messages are handled once each, or the connection stops",
    "Each message received by an enabled connection is handed exactly once and unchanged to the handler for its kind (text, binary, or datagram with its sender), in order of arrival; queued outgoing messages are sent once each, in order. "
    "If no message can be obtained, or the handler refuses one, the connection is disabled; accepting a message never disables it. "
    "An enabled connection never silently stops reading: if reading ends for any reason, including an exception from a handler, the connection becomes disabled.",
    ["inputs", "schedules", "fault_sequences"],
    "all message sequences, all handler outcomes (accept, refuse, raise), all connection kinds",
    "Tests use accepting handlers; refusing and raising handlers in each transport, and mixes with queued writes, aren't reached.",
    [R + "net/connection.py", R + "net/udp/connection.py", R + "net/tcp/protocol.py", R + "net/udp/protocol.py", R + "net/tcp/connection.py"],
    [("read loop", R + "net/connection.py: _process_read"), ("datagram read loop", R + "net/udp/connection.py: _process_read"), ("queue writers", R + "net/connection.py: _process_write_text/_process_write_binary")],
    ["handler invocations and arguments", "enabled state after a refusing or raising handler"],
    note="All paths of each distinct read and write loop; per-message segments of the loops are checked separately (loop bodies are analysed to a fixpoint).",
)
prop(
    "C05",
    "Stream parsers don't depend on how the bytes arrive",
    "Size-prefixed messages, HTTP messages, event telemetry and telnet control sequences are recovered identically from a byte stream however it is split: partial data and the stage reached are kept between pieces, a part is consumed only once complete (including empty payloads), everything complete is processed right away, each message is emitted once with exactly the announced payload, and progress is recorded before control goes to a consumer. "
    "Outgoing messages are prefixed with the number of encoded bytes that follow, in the stream's byte order. A restarted stream connection discards partially received data.",
    ["inputs", "histories"],
    "all byte streams and all ways to split them into pieces",
    "Tests feed a few streams, nearly always split at message boundaries.",
    [R + "message/__init__.py", R + "net/http/__init__.py", R + "net/http/state.py", R + "channel/environment/telemetry.py", R + "channel/event/header.py", R + "net/tcp/telnet/__init__.py", R + "net/stream/base.py"],
    [("size-prefixed framing", R + "message/__init__.py: MessageProcessor.process"), ("HTTP framing", R + "net/http/__init__.py: HttpMessageProcessor.ingest"), ("event framing", R + "channel/environment/telemetry.py: parse_event_stream"), ("telnet state machine", R + "net/tcp/telnet/__init__.py: process_binary")],
    ["messages/events emitted for a stream and any split of it"],
    note="All paths of each parser, per loop iteration; vcorelib's ByteFifo is trusted (pop returns None unless enough bytes are buffered). Line-oriented device text (NP-05B, SCPI) isn't covered.",
)
prop(
    "C18",
    "Periodic tasks run while enabled and stop when told",
    "A periodic task dispatches iterations only while it's enabled and not paused, sleeping for what remains of its period in between (never spinning). An iteration that returns false, raises or is cancelled, a set stop signal, cancellation, or disabling it (even during an iteration) ends it, and once it stopped running it isn't enabled, so it can be started again. "
    "Stopping disables, cancels and waits for an unfinished run before it's dropped and its stop actions run once; starting stops a previous run first; the manager registers a name once and starts and stops every task.",
    ["schedules", "histories", "fault_sequences"],
    "all orders of dispatch outcomes, pauses, disables, cancellations and stop signals",
    "Tests run well-behaved tasks for some iterations and stop them from outside; a request to stop that arrives during an iteration isn't exercised.",
    [R + "task/basic/periodic.py", R + "task/basic/manager.py"],
    [("iteration loop", R + "task/basic/periodic.py: run"), ("stop", R + "task/basic/periodic.py: stop"), ("manager", R + "task/basic/manager.py")],
    ["enabled state, number of dispatches and time between them, task reference after stopping"],
    note="All paths per loop iteration; an iteration's own duration and clock accuracy aren't decided.",
)
prop(
    "C21",
    "Retries back off exponentially, are bounded and take effect once",
    "Connection attempts (initial ones and automatic restarts) are preceded by a backoff whose interval is zero for the first attempt and then grows exponentially up to its maximum, use the backoff they were given, and end when one succeeds, when the maximum number of attempts is reached and, for restarts, when the connection isn't disabled anymore or the stop signal is set; not earlier. "
    "Every attempt is counted once; a successful restart enables the connection and is counted once, and replaces transport and protocol with ones created from the original arguments (an unconnected UDP socket keeps its remote address). A failed attempt is never treated as a success.",
    ["histories", "fault_sequences"],
    "all sequences of failing and succeeding connection attempts, stop signals and backoff settings",
    "Tests let a few attempts fail quickly; growth, limits and the interplay of stop signals and restarts need many attempts and real time.",
    [R + "net/backoff.py", R + "net/connection.py", R + "net/tcp/create.py", R + "net/udp/create.py", R + "net/tcp/connection.py", R + "net/udp/connection.py"],
    [("backoff", R + "net/backoff.py: ExponentialBackoff"), ("restart loop", R + "net/connection.py: _handle_restart"), ("creation loops", R + "net/tcp/create.py, " + R + "net/udp/create.py")],
    ["intervals between attempts, number of attempts, restart counters, transport in use"],
    note="A monotonicity domain for the interval and all paths per loop iteration; how long sleeping really takes isn't decided.",
)
prop(
    "C22",
    "The connection manager supervises every connection exactly once",
    "Every connection handed to the manager is kept and processed by exactly one task at a time that observes the stop signal and is waited for; only disconnected connections that don't restart automatically are dropped, and those that do are processed again once their previous processing ended. "
    "The manager wakes up for the stop signal, new connections and finished tasks, loses no connection, waits for remaining tasks when stopping (even if some failed), can be entered again while running (which only waits) and used again after it ended in whatever way.",
    ["schedules", "histories", "fault_sequences"],
    "all orders of connections arriving, being disabled, restarting, failing, and the stop signal",
    "Tests manage a couple of well-behaved connections; double processing or a lost connection needs events to coincide.",
    [R + "net/manager.py"],
    [("management loop", R + "net/manager.py: manage")],
    ["processing tasks per connection, managed connections, state after the manager ended"],
    note="All paths per iteration of the loop; fairness of the event loop is trusted.",
)
prop(
    "C28",
    "Every command line leads to a truthful result, and never an exception",
    "Whatever a command line contains, it leads to a result: no exception leaves the command handler, and nothing ends the program. Lines that can't be parsed are reported with the parser's message for that line. "
    "Results tell what happened: successes are only reported when the change was made or the value was read (and contain it), failures have a reason. "
    "A queued command that fails neither ends nor affects the processing of others.",
    ["inputs", "fault_sequences"],
    "all command lines, channel kinds, enumerations and scalings",
    "Tests send a few lines; which exceptions conversions can raise on text and numbers must be known for all of them.",
    [R + "channel/environment/command/processor.py", R + "channel/environment/command/parser.py", R + "channel/environment/command/result.py", R + "channel/environment/base.py", R + "mixins/async_command.py"],
    [("command handler", R + "channel/environment/command/processor.py"), ("argument parser", R + "channel/environment/command/parser.py"), ("value conversion", R + "channel/environment/base.py: set"), ("command queue", R + "mixins/async_command.py")],
    ["command results", "exceptions from the command interface"],
    technique="exception-effect analysis with a table of what conversions raise, result facts on all paths (static analysis)",
    level="other",
    note="Exceptions are those of the conversions in the table and of assertions and raise statements; other library calls are assumed not to raise. Custom commands of users are only covered when they're queued.",
)

prop(
    "C30",
    "Applications run in order, on initialized state, and always clean up",
    "Applications run only after all servers started, processes started, deferred connections were created and registered under their own names, every connection was initialized, structs were built, periodic tasks were initialized and started, and environments were registered and finalized; and only if no registered connection is disabled (unless that isn't checked). "
    "Initialization methods and then stages of applications run in order until one fails; the applications of a stage run together, and the stage fails if any of them returns non-zero or raises; every stage's results are recorded once. "
    "However the run ends (return, exception, cancellation), connections are disabled, the stop signal is set, and servers and connection management are cancelled and waited for. A name is registered at most once.",
    ["schedules", "fault_sequences", "inputs"],
    "all configurations, exit codes, exceptions and cancellations",
    "Tests run configurations that succeed; combining exit codes, exceptions in applications and cancellation aren't enumerated.",
    [R + "net/arbiter/base.py"],
    [("startup sequence", R + "net/arbiter/base.py: _main"), ("stages", R + "net/arbiter/base.py: _run_apps_list/_run_apps"), ("cleanup", R + "net/arbiter/base.py: _entry/app")],
    ["order of startup steps, exit code, recorded results, tasks left running"],
    note="All paths of the arbiter's entry point; what applications do is not modelled.",
)
prop(
    "C15",
    "Remote requests only reach files inside of the served directories",
    "A path that a remote peer names (a TFTP read or write request, an HTTP request for a file or Markdown document) is only checked, opened, read or written after it's known to lie inside of the directory that's served, for every spelling of it (parent references, absolute paths, symbolic links, encodings). "
    "A TFTP request is either serviced by one transfer, answered with an error, or a repetition of one that's being serviced.",
    ["inputs"],
    "all request paths and all file systems",
    "Tests request a handful of well-formed names; one unusual spelling is enough to read or overwrite any file.",
    [R + "util.py", R + "net/udp/tftp/endpoint.py", R + "net/server/__init__.py", R + "net/html/__init__.py"],
    [("containment check", R + "util.py: contained_path"), ("request paths", R + "net/udp/tftp/endpoint.py: get_path"), ("file requests", R + "net/server/__init__.py: try_file")],
    ["files opened or modified, and content sent, for requests with unusual paths"],
    technique="taint analysis with a sanitizer that's proven separately, over all paths (static analysis)",
    note="All paths from peer-controlled strings to file system accesses; resolution by pathlib is trusted, as is that the file system doesn't change between check and use.",
)
prop(
    "C16",
    "TFTP transfers are complete, in order, truthful, and leave nothing behind",
    "A transfer sends chunks of a file with consecutive numbers from 1, each only after the previous one was acknowledged, ending with a short chunk; a receiver writes each block once, in order, after it arrived, acknowledges what it wrote, and both report success only (and always) if everything including the last block was transferred. "
    "A verified write succeeds only if what's read back is equal. Blocks and acknowledgements only have an effect if they're awaited, once; what's awaited is forgotten when its transfer ends in any way, and an endpoint performs one transfer, and a file is written by one, at a time. "
    "Every message reaches the handler of its code (unknown ones are answered with an error), no message stops the connection, and messages carry their code, number and payload to the intended address.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all file sizes, losses, duplicates, reorderings, malformed messages and cancellations",
    "Tests transfer a few files over loopback without loss; exact-multiple sizes, lost or duplicated messages and interrupted transfers need particular faults.",
    [R + "net/udp/tftp/__init__.py", R + "net/udp/tftp/base.py", R + "net/udp/tftp/endpoint.py", R + "net/udp/tftp/io.py"],
    [("transfer loops", R + "net/udp/tftp/endpoint.py: serve_file/ingest_file"), ("client", R + "net/udp/tftp/__init__.py: request_read/request_write"), ("dispatch", R + "net/udp/tftp/base.py: process_datagram")],
    ["content of the received file and the result, for lost, duplicated and malformed messages", "messages sent"],
    note="All paths, with symbolic block numbers; the retransmission helper is modelled as calling its callback and reporting whether the event was set. Timing isn't decided.",
)
prop(
    "C13",
    "Channels are only changed by commands that are allowed to change them",
    "A command changes a channel only if it's a set or toggle, the channel exists, and the channel is commandable or the command is forced; commands for a remote or custom handler change nothing locally. "
    "Hooks run once for each successful local change (with its arguments and channel) and each remote or custom command (with its arguments). Commands aren't forced or remote unless asked for. "
    "Remote parties (JSON messages, HTTP posts, user-interface messages) change channels by commands to the environment they name only, and learn the result. Queued commands are handled once each, in order; remote commands are passed on with command, channel, value and flags.",
    ["inputs", "histories"],
    "all command lines, environments and kinds of channels, all remote entry points",
    "Tests send some commands to some channels; whether any entry point gets around the gate is a matter of all call sites and all paths through the handler.",
    [R + "channel/environment/command/processor.py", R + "channel/environment/command/parser.py", R + "mixins/async_command.py", R + "net/arbiter/info.py", R + "net/server/json.py", R + "net/server/websocket/state.py", R + "subprocess/peer.py", R + "subprocess/program.py"],
    [("command gate", R + "channel/environment/command/processor.py: do_set, do_toggle, handle_command"), ("command queue", R + "mixins/async_command.py"), ("remote entry points", R + "net/server, " + R + "subprocess")],
    ["channel values", "hook calls", "command results"],
    technique="guard facts on all paths of the command handler, call-site scan for ways around it (static analysis)",
    note="Code of users that sets channels directly isn't seen.",
)

prop(
    "C14",
    "JSON requests are answered once, and only their own response completes them",
    "Every awaited JSON request gets a fresh identifier that's awaited before the message is sent, and only a message with that identifier completes it, with that message's content, once; identifiers that the two ends of a connection use for their own requests don't collide. "
    "Any other message is handled and answered, under its own identifier, exactly once and only to where it came from: each key by exactly one handler, unknown keys are reported as unknown, and the response is sent after all handlers finished. A response is never answered. "
    "Text that isn't a valid message is ignored without an effect. Initialization finishes only after the peers exchanged environments, and log messages that are attached to responses are attached once.",
    ["inputs", "schedules", "histories"],
    "all messages, identifiers, handler sets and interleavings of requests of both ends",
    "Tests send a few requests one after the other; colliding identifiers, late responses and messages with several keys need both ends to be active at once.",
    [R + "message/interface.py", R + "message/handlers.py", R + "message/__init__.py", R + "net/stream/json/__init__.py", R + "subprocess/interface.py", R + "subprocess/peer.py", R + "subprocess/program.py"],
    [("awaited identifiers", R + "message/interface.py: wait_json/process_json"), ("handler dispatch", R + "message/interface.py: process_json"), ("standard handlers", R + "message/handlers.py")],
    ["messages sent for received messages", "results of wait_json", "which waiter completes"],
    note="All paths of the dispatch and all standard handlers; the probability that random identifier offsets of two ends meet is accepted.",
)
prop(
    "C06",
    "What's encoded can be decoded: readers mirror writers, sizes are bytes written",
    "For primitives, arrays (and fragments of arrays), strings, chunks, chains of serializables and change events, encoding and decoding use the same layout, byte order (the given one, else the object's own) and number of bytes, and the reported size is the number of bytes that encoding produces. "
    "An array's elements, format, size and index tables always describe the same elements, whatever is added to it, including copies of a primitive. A prefix counts the encoded bytes that follow it. A frame holds whole samples, and all samples that were added are framed once, in order. "
    "Byte orders don't insert padding, and each primitive type has the size, signedness and bounds of its format. A change event is a header with the channel's identifier and update time, followed by the value in the header's byte order.",
    ["inputs", "histories"],
    "all values, byte orders, element sequences and chain lengths",
    "Tests round-trip a few ASCII strings and arrays in network byte order; non-ASCII text, native byte order with mixed element sizes, longer chains and array elements need particular inputs.",
    [R + "primitives/types/base.py", R + "primitives/base.py", R + "primitives/byte_order.py", R + "primitives/string.py", R + "primitives/array/__init__.py", R + "primitives/serializable/base.py", R + "primitives/serializable/fixed.py", R + "primitives/serializable/prefixed.py", R + "primitives/serializable/framer.py", R + "channel/event/__init__.py", R + "channel/event/header.py"],
    [("layout bookkeeping", R + "primitives/array/__init__.py: add/reset"), ("chains", R + "primitives/serializable/base.py"), ("prefixes", R + "primitives/string.py, serializable/prefixed.py"), ("framing", R + "primitives/serializable/framer.py")],
    ["bytes written for given values", "values read from these bytes", "reported sizes"],
    technique="symbolic summaries of encoders and decoders that are compared, co-update invariants over all paths (static analysis)",
    note="All paths of all encoding and decoding methods; Python's struct module is trusted. Overrides in user code aren't seen.",
)
prop(
    "C09",
    "What is exported can be imported again, and copies are made of everything",
    "Dictionaries of channels, enumerations, bit-fields and protocols hold every attribute that's set, and importing one restores each attribute (what's left out because it isn't set isn't required): "
    "identifiers, types, enumerations, defaults, controls, descriptions, positions, widths and values, with the integer and boolean kinds kept apart. Environments are loaded from all of the parts that they're exported to (channels, enumerations, fields, names, values), "
    "each from the file or key that it was written to. A protocol is imported with the layout, names, identifiers, byte order and values it was exported with. Copies pass on everything that the constructor takes. Schemas accept whatever can be exported. "
    "(A channel's scaling and protocols with nested serializables are not part of what can be exported.)",
    ["inputs", "histories"],
    "all environments, registries, enumerations, bit-fields and protocols that can be built",
    "Tests export and import a few hand-written examples; an attribute that's lost is only noticed if an example sets it and the test compares it.",
    [R + "channel/__init__.py", R + "enum/__init__.py", R + "primitives/field/fields.py", R + "primitives/field/manager/__init__.py", R + "codec/protocol/json.py", R + "codec/protocol/base.py", R + "channel/environment/file.py", R + "mapping.py", R + "data/schemas/Channel.yaml"],
    [("dictionary export", R + "channel/__init__.py: asdict"), ("environment files", R + "channel/environment/file.py: export, load"), ("protocol JSON", R + "codec/protocol/json.py"), ("copies", R + "codec/protocol/base.py: copy")],
    ["exported JSON", "attributes of imported objects", "copies"],
    technique="correspondence analysis of symbolic dictionary contents between exporting and importing methods; schema patterns against accepted names (static analysis)",
    note="All paths of the methods; equality of values beyond passing them on isn't decided.",
)
prop(
    "C10",
    "Bit-fields of a primitive never overlap or affect each other",
    "Bits of a primitive are given to at most one field, flag or padding, whoever creates it, and only while the fields aren't finalized and inside of the primitive; what's allocated stays allocated. "
    "Reading a field gives exactly its bits, shifted down; writing it changes exactly its bits, of the primitive's current value, to the value's lower bits, and toggling inverts exactly them. "
    "Each field is found by its name and index, names are unique, and managers lead each name to the fields that contain it, which are final then, with the registered enumeration.",
    ["inputs", "histories"],
    "all widths, indices, values and orders in which fields are created and written",
    "Tests create a few fields in ascending order; explicit indices, padding between fields, fields created elsewhere and values wider than the field need particular layouts.",
    [R + "primitives/field/__init__.py", R + "primitives/field/fields.py", R + "primitives/field/manager/base.py", R + "primitives/field/manager/__init__.py"],
    [("bit allocation", R + "primitives/field/fields.py: _claim_bits"), ("masks", R + "primitives/field/__init__.py: BitFieldBase"), ("name lookup", R + "primitives/field/manager/base.py: add")],
    ["values of fields before and after a write", "layouts accepted or rejected"],
    technique="path-sensitive dataflow with symbolic mask terms that are matched against the definition (static analysis)",
    note="All paths of the allocation and access methods; mask terms are compared algebraically up to commutativity.",
)
prop(
    "C11",
    "Names and identifiers are a one-to-one relation that all lookups follow",
    "A registry's two tables always describe the same pairs: each name has one identifier and each identifier one name, in the order of registration, and a rejected pair leaves both unchanged. Registering a name gives its identifier, or a free one, and fails only for invalid names and identifiers that are taken. "
    "Items are stored once, under their registered name, with that name's identifier; lookups by name and identifier give the same item, or tell that there's none. "
    "A channel has the given primitive, type, enumeration and scaling, a name that isn't one of a bit-field, and is known as a channel of its type. Enumerations translate with the table of their type only.",
    ["inputs", "histories"],
    "all sequences of registrations and lookups, with explicit, automatic and conflicting identifiers",
    "Tests register a few names in order; conflicts between explicit and automatic identifiers, half-registered pairs and lookups after failed registrations need particular histories.",
    [R + "mapping.py", R + "registry/__init__.py", R + "registry/name.py", R + "registry/bool.py", R + "mixins/regex.py", R + "channel/registry.py", R + "channel/environment/base.py", R + "channel/environment/create.py", R + "enum/__init__.py"],
    [("two-way table", R + "mapping.py: _set"), ("name registration", R + "registry/name.py: register_name"), ("item registration", R + "registry/__init__.py"), ("channel creation", R + "channel/environment/create.py: channel")],
    ["identifiers and items returned for names", "results of registrations"],
    note="All paths of the registry methods and a whole-program scan for other writers. asdict() hands out the live table; changes by its callers aren't tracked.",
)
prop(
    "C12",
    "Finalized environments never change, and everything is final before it's used",
    "Channels and fields can only be registered while an environment isn't finalized, and finalization can't be undone; a bypass ends with its scope, whatever happens in it. Fields that were added before are managed afterwards, once. "
    "Connections finalize their environment on every exit of their initialization, before they signal that they're initialized; and are disabled if it failed; so do peers, periodic tasks, and the structs and tasks of an application before it's started. "
    "What's exported is final, and what's loaded is final if that's requested.",
    ["inputs", "fault_sequences", "histories"],
    "all sequences of registrations, initialization failures and loads",
    "Tests check that one late registration fails; other registration paths, failing or cancelled initialization and ordering with completion signals need particular histories.",
    [R + "mixins/finalize.py", R + "channel/environment/base.py", R + "channel/environment/create.py", R + "channel/environment/file.py", R + "net/connection.py", R + "net/arbiter/base.py", R + "net/arbiter/info.py", R + "subprocess/interface.py", R + "task/basic/periodic.py"],
    [("finalization state", R + "mixins/finalize.py"), ("registration guards", R + "channel/environment/create.py: channel, base.py: add_field"), ("initialization order", R + "net/connection.py: _async_init, net/arbiter/base.py")],
    ["registrations accepted or rejected", "finalized state when initialization is signaled"],
    technique="whole-program scan of registration sites with guard facts on all paths, order of effects on all exits (static analysis)",
    note="All registration sites in the package. User code that changes registries directly isn't seen.",
)
prop(
    "C19",
    "Metrics count exactly what was sent and received",
    "Everything that's sent or received by TCP, UDP and websocket connections and subprocess streams is counted exactly once, in its own direction and with its number of bytes (text as encoded), and nothing is counted when it failed or wasn't transferred. "
    "Counting adds one message and its bytes, and updates the message rate and the rate of kilobits from the same. Polls, updates and resets cover every counter, in both directions, of all connections and streams. "
    "Counters are exposed as the channels that carry their names, change events are counted if they're written, and each iteration of a periodic task is measured once. Nothing else changes these counters.",
    ["inputs", "histories", "fault_sequences"],
    "all messages, all outcomes of transfers, all connection kinds and all other call sites",
    "Tests look at a few counters after a few messages; double or missing counts on failing and rarely used paths aren't seen.",
    [R + "metrics/channel.py", R + "metrics/connection.py", R + "metrics/task.py", R + "net/tcp/connection.py", R + "net/udp/connection.py", R + "net/websocket/connection.py", R + "channel/event/__init__.py", R + "subprocess/interface.py", R + "subprocess/program.py", R + "mixins/environment.py", R + "net/manager.py", R + "task/basic/periodic.py"],
    [("counters", R + "metrics/channel.py: increment, poll, update, reset"), ("transfer sites", R + "net/tcp/connection.py, net/udp/connection.py, net/websocket/connection.py"), ("task metrics", R + "metrics/task.py: measure")],
    ["metrics channels"],
    technique="effect counting on all paths of the transfer sites, whole-program scan for other writers (static analysis)",
    level="other",
    note="The arithmetic of rates (trackers of a library) and timing aren't judged.",
)
prop(
    "C26",
    "User-interface clients observe without interfering and leave nothing behind",
    "Showing a tab registers one observer for each of its channels, at most once per channel and client, and hiding the tab or losing the client removes all of them; handlers of logs are added once and removed as well. "
    "A client increments the number of connections once and decrements it once, if it did, and its observer of it is removed. "
    "Observing never changes values and never makes writes of channels fail. Each observed change is delivered once with its time; frames take over pending points and messages. Tabs that are shown get values that are missing or have changed. "
    "Observers and handlers with a scope are removed on every way out of it.",
    ["histories", "schedules", "fault_sequences"],
    "all sequences of tab events, frames, writes and disconnects, for all channel kinds",
    "Tests open and close a tab or two; observers that stay behind, double registrations and interference with writers accumulate silently.",
    [R + "net/server/websocket/__init__.py", R + "net/server/websocket/state.py", R + "net/server/app/env/tab/message.py", R + "channel/environment/base.py", R + "primitives/base.py"],
    [("observer registration", R + "net/server/websocket/state.py: TabState"), ("tab events", R + "net/server/app/env/tab/message.py"), ("connection teardown", R + "net/server/websocket/__init__.py: disable_extra")],
    ["registered callbacks and log handlers", "messages to the client"],
    technique="typestate of registrations on all paths, effects of observers (static analysis)",
    note="What the browser does with messages isn't analysed.",
)
prop(
    "C27",
    "Waiting for values never misses changes, sampling provides all samples",
    "Waiting for a condition (a comparison with the given value on the left, being close, or a boolean or enumerated state) reports success if the current value, or any value that's written before the timeout, meets that condition as asked for "
    "(operation, tolerances and the channel's scaling or enumeration considered), exactly once and without delay; otherwise it ends with the timeout and doesn't report success. "
    "Sampling captures every change (and the current value, if requested) with its time until the timeout or the requested number of samples, and provides all that's captured in order; neither leaves observers or timers behind, "
    "and a timeout of samples never interrupts whoever consumes them. Interfaces of environments forward what they're asked for to the channel with that key.",
    ["inputs", "schedules", "histories"],
    "all values, conditions, timeouts, counts and schedules of writes relative to the wait",
    "Tests wait with a few values and a single writer task; a change between evaluation and registration, several changes in one iteration and slow consumers depend on scheduling.",
    [R + "primitives/evaluation.py", R + "primitives/int.py", R + "primitives/float.py", R + "primitives/bool.py", R + "channel/environment/base.py"],
    [("evaluation", R + "primitives/evaluation.py: evaluate, compare_latest, wait_for_isclose"), ("sampling", R + "primitives/evaluation.py: sample_for"), ("environment interfaces", R + "channel/environment/base.py: wait_for_*, sample_*_for")],
    ["results of waits", "samples", "registered callbacks"],
    technique="all paths of waits with changes interleaved at their suspension, dataflow of arguments (static analysis)",
    note="Durations, the accuracy of scaling and the order of loop callbacks aren't judged.",
)
prop(
    "C23",
    "Every HTTP request is answered once, with what its path names",
    "Each request received is given to its method's handler (others are answered as not implemented) with its header and data, and answered once, on the same connection: the header first, with the length of the data, then the data. "
    "Each response received is given to the request that waits for it; requests are made one at a time, and one that's cancelled or whose connection is lost ends and never leaves its response to the next. "
    "Header fields are found regardless of case and headers are written and read completely. The server answers with the icon, the first file of its search paths (rendered, if it's markdown), the redirect, the data or the application that the path names, "
    "and otherwise redirects; a command is run once in the environment that's named and its outcome reported.",
    ["inputs", "schedules", "histories"],
    "all requests, responses, chunks, files, redirects, data and registrations; all orders of responses, cancellation and loss of the connection",
    "Tests request a few paths over loopback; unusual targets, several messages in a chunk, requests that are abandoned and combinations of files, redirects and applications aren't sampled.",
    [R + "net/tcp/http/__init__.py", R + "net/http/header.py", R + "net/http/response.py", R + "net/http/common.py", R + "net/http/request_target.py", R + "net/server/__init__.py", R + "net/server/json.py", R + "net/server/html.py", R + "util.py"],
    [("requests and responses", R + "net/tcp/http/__init__.py: request, process_binary"), ("handlers", R + "net/server/__init__.py: get_handler, post_handler"), ("headers", R + "net/http/common.py: HeadersMixin")],
    ["responses and their data", "results of requests"],
    technique="typestate and dataflow on all paths of requests, handlers and header processing (static analysis)",
    note="How messages are found in the received stream is C05's part, containment of files is C15's; contents of documents aren't judged.",
)
prop(
    "C25",
    "Asynchronous work is always waited for or kept",
    "Every coroutine that the package creates is run: it's awaited, returned to a caller that expects it, stored, or given to something that takes awaitables; every task that it creates is kept, awaited or observed, "
    "so that no work silently doesn't happen and none is lost to garbage collection. What's tested, returned, unpacked or iterated is the outcome of asynchronous work and never the work itself (which is always truthy). "
    "Functions that run in the event loop don't block it by sleeping or by waiting for processes or for the loop itself.",
    ["schedules", "inputs"],
    "every call site of this package's coroutine functions (resolved by the types of receivers) and those of asyncio, on every path",
    "Coroutines that aren't awaited only produce a warning, on the paths a test happens to run; a condition on one is just always true, and a task that isn't kept only goes missing when the garbage collector runs.",
    [R + "net/connection.py", R + "net/arbiter/base.py", R + "net/tcp/connection.py", R + "net/udp/connection.py", R + "net/udp/tftp/base.py", R + "message/interface.py", R + "task/asynchronous.py", R + "subprocess/peer.py"],
    [("awaits", R + "net/: async methods of connections"), ("tasks", R + "net/connection.py: process; " + R + "net/manager.py: manage")],
    ["work that's done", "results of conditions", "responsiveness of the loop"],
    technique="awaitable ownership over type-resolved call sites, lint of blocking calls (static analysis)",
    note="Call sites whose callee can't be resolved by types (callbacks in containers, objects of other libraries) aren't judged.",
)

prop(
    "C31",
    "Values are written to and read from what's named",
    "The value that's set for a channel or bit-field, by name or identifier, is the value of that very channel or field afterwards (an enumerated one by the name or the number of its value), and what's read by name is the current value of what the name stands for. "
    "Reading or snapshotting an environment changes nothing, applying values writes each of them under its own name, and lookups (by name, identifier or type) give exactly the channels and fields that were registered, whichever way these were created.",
    ["inputs", "histories"],
    "every path of the lookups, writers and readers of a channel environment, for every kind of channel, enumeration and name",
    "Each pairing of a kind of channel, a way to create it, a way to name it and a way to write it is its own path, and only few of these are sampled.",
    [R + "channel/environment/base.py", R + "channel/environment/create.py", R + "channel/environment/array.py"],
    [("environment", R + "channel/environment/base.py: set, value, values, apply, get, field_or_channel"), ("creation", R + "channel/environment/create.py: channel")],
    ["values of channels", "snapshots of environments", "lookups"],
    technique="path-sensitive dataflow of names, values and lookups on all paths (static analysis)",
)

prop(
    "C32",
    "What's configured is created, as configured",
    "Every section of a configuration (ports, factories, clients, servers, tasks, structs, processes, applications, configuration data) takes effect: each item is created by the factory that it names, under its own name and with the arguments that were given for it, "
    "with references to ports resolved; registration under a name that's taken is refused and not silently dropped, and what's absent, deferred or unknown isn't created or mixed up with anything else.",
    ["inputs"],
    "every path of the loading and processing of configurations and of factories, for every combination of sections and options",
    "Configurations combine freely, whereas tests load a handful of files in which most options are absent.",
    [R + "net/arbiter/config/__init__.py", R + "net/arbiter/config/codec.py", R + "net/arbiter/config/util.py", R + "net/arbiter/imports/__init__.py", R + "net/arbiter/factory/task.py", R + "net/factories/__init__.py"],
    [("configuration", R + "net/arbiter/config/__init__.py: ConfigConnectionArbiter"), ("factories", R + "net/arbiter/factory/, " + R + "net/arbiter/imports/")],
    ["connections, servers, tasks, structs and processes of an arbiter"],
    technique="path-sensitive dataflow of configuration keys and arguments to factories (static analysis)",
)

prop(
    "C17",
    "Subprocesses and their tasks end with their contexts",
    "A process that's started is given its own queues for output and is shut down and waited for however its context ends (normally, by an exception or by cancellation); the exit is only reported once the process exited and all of its output is flushed to the queue of its own pipe. "
    "A peer passes everything that its process writes to the handler of that stream, in order; its tasks, and those of a peer program, never outlive it. "
    "A program's main entry only starts once environments were exchanged, it reads messages until its input ends, and it's always cleaned up; each end keeps the environment and configuration of the other, exchanged once.",
    ["schedules", "faults", "histories"],
    "every path of the contexts, protocols, tasks and handlers of subprocesses and peer programs, with exceptions and cancellation at every wait",
    "A process that's left behind or a task that outlives its peer needs a failure or a cancellation at a particular point, which tests of the regular course don't have.",
    [R + "subprocess/__init__.py", R + "subprocess/protocol.py", R + "subprocess/interface.py", R + "subprocess/peer.py", R + "subprocess/program.py"],
    [("processes", R + "subprocess/__init__.py: spawn_exec, spawn_shell, close_protocol"), ("peers", R + "subprocess/peer.py: RuntimepyPeer"), ("programs", R + "subprocess/program.py: PeerProgram")],
    ["processes", "queues of output", "tasks", "environments of peers"],
    technique="typestate of processes and tasks over all paths with exceptions and cancellation (static analysis)",
)

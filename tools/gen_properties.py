#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single source of the property texts."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })


prop("C01", "Every PostgreSQL message value survives serialise-then-parse unchanged",
     "For every message type the library can build, serialising any representable value yields exactly the bytes the PostgreSQL v3 protocol prescribes (type byte, big-endian length that counts itself, body), and parsing those bytes gives back an equal value. NULL column values stay distinct from empty ones, and orders of fields, columns and start-up parameters are kept. This also holds for long values and many fields, and when the message travels over a connection with the send and receive calls.",
     ["inputs"], "every representable value of every message type, including empty, very long, high-byte, NULL and maximum-count fields",
     "The unit tests encode and decode one captured packet per type; no test varies values, counts, sizes or signs, and a mistake made symmetrically in encoder and decoder is invisible to a round trip on its own.",
     ["pkg/pg/*_message.go", "pkg/pg/write_buffer.go", "pkg/pg/read_buffer.go", "pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go", "pkg/pg/conn.go"],
     [("Frame() encoders", "pkg/pg/*_message.go"), ("Parse*Message decoders", "pkg/pg/*_message.go"), ("WriteBuffer/ReadBuffer", "pkg/pg/write_buffer.go, pkg/pg/read_buffer.go"), ("RecvMessage/SendMessage", "pkg/pg/conn.go")],
     observe=["return values of Parse*Message and Frame().Bytes()", "bytes on a connection"])

prop("C02", "Decoding never silently alters a message: lossless or rejected",
     "Whenever a parser accepts a network frame, re-serialising the parsed message reproduces that frame byte for byte; a frame it cannot represent exactly (trailing bytes, missing terminators, negative counts or sizes, wrong type byte, unknown layout) is rejected with an error. Every well-formed frame of the type is accepted. The same holds for messages received from a connection: what the receive call returns serialises to exactly the bytes that were sent, or it returns an error.",
     ["inputs"], "every byte string, well-formed or not, presented as a frame of every message type",
     "The tests parse one valid packet and one packet with a wrong type byte per message; they never compare a re-serialised message with its input and never use truncated, padded or otherwise odd bodies.",
     ["pkg/pg/*_message.go", "pkg/pg/conn.go"],
     [("Parse*Message decoders", "pkg/pg/*_message.go"), ("message type dispatch in RecvMessage", "pkg/pg/conn.go"), ("GenericMessage pass-through", "pkg/pg/generic_message.go")],
     observe=["Parse*Message result and Frame().Bytes() of it", "RecvMessage result"])

prop("C03", "Arbitrary bytes never crash the decoder or make it over-allocate",
     "Reading and parsing arbitrary bytes from the network, as a start-up packet or as any message, always ends with a message or an error: it never panics, never loops without consuming input, and allocates memory at most in proportion to the number of bytes actually received (plus a small constant), whatever lengths and counts those bytes claim.",
     ["inputs"], "every byte string, in particular hostile length and count fields (negative, zero, huge), truncations and mutations of valid packets",
     "The tests only contain well-formed captured packets; no test sends a negative or oversized count or length.",
     ["pkg/pg/read_buffer.go", "pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go", "pkg/pg/*_message.go", "pkg/pg/conn.go"],
     [("bounds checks of ReadBuffer", "pkg/pg/read_buffer.go"), ("count/length validation in parsers", "pkg/pg/data_row_message.go, pkg/pg/row_description_message.go, pkg/pg/negotiate_protocol_version_message.go"), ("incremental frame read", "pkg/pg/standard_frame.go, pkg/pg/startup_frame.go")],
     observe=["panics", "allocated bytes", "return values"])

prop("C04", "Frame reading consumes exactly one frame however the stream is chunked",
     "Reading a frame from a byte stream consumes exactly the bytes of that frame, whatever sizes the stream delivers them in, so that the sequence of frames read equals the sequence written and nothing that follows is swallowed. A stream that ends or fails inside a frame yields an error and never a partial frame; a clean end between frames yields io.EOF; a header whose length field is too small to count itself is rejected.",
     ["inputs", "fault_sequences"], "every sequence of frames (empty, small, larger than any internal buffer), every partition of the byte stream into reads, and every point where the stream ends or errors",
     "The tests read one 10-byte frame from a buffer that returns it in one piece, then one EOF.",
     ["pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go", "pkg/pg/conn.go"],
     [("ReadStandardFrame / ReadStartupFrame", "pkg/pg/standard_frame.go, pkg/pg/startup_frame.go"), ("RecvMessage / RecvStartupMessage", "pkg/pg/conn.go")],
     observe=["frames returned", "bytes taken from the reader"])

prop("C05", "Read and write buffers follow the documented primitive encodings",
     "Any sequence of read operations on a read buffer returns what the big-endian, NUL-terminated PostgreSQL encoding of its contents says, and consumes exactly that many bytes; a read that cannot be satisfied returns an error, io.EOF for sized reads, and leaves the buffer as it was. Any sequence of write operations appends exactly the encodings of the values written, and the reported length is always the number of bytes left or written.",
     ["inputs", "histories"], "every sequence of read/write operations with every argument over every buffer content",
     "The tests call each operation once or twice on one short buffer; sequences of operations, signed extremes, failed reads followed by further reads, and odd sizes are not covered.",
     ["pkg/pg/read_buffer.go", "pkg/pg/write_buffer.go"],
     [("ReadBuffer", "pkg/pg/read_buffer.go"), ("WriteBuffer", "pkg/pg/write_buffer.go")],
     observe=["results and remaining contents after each operation"])

prop("C06", "Database URIs are parsed into exactly the parameters they denote",
     "For every PostgreSQL connection URI, the parsed host, port, user, password, database and query parameters are the percent-decoded components of the URI, with the documented defaults (localhost, 5432, operating-system user, database named like the user) only for components that are absent, and query parameters taking precedence. Malformed URIs and other schemes are rejected with an error, and parsing never panics or lets one call influence another.",
     ["inputs"], "every connection URI: all combinations of present and absent components, percent-encoded and non-ASCII characters, IPv6 hosts, repeated and overriding query parameters, malformed strings",
     "The tests use eight fixed URIs without escapes, IPv6 hosts, overriding parameters or database names that need decoding.",
     ["pkg/pg/dsn.go"],
     [("ParseDatabaseURI", "pkg/pg/dsn.go"), ("defaultConnectionSettings", "pkg/pg/dsn.go")],
     observe=["returned parameter map"])

prop("C07", "The proxy relays every protocol message unchanged, once, in order, both ways",
     "In an established session, the bytes the database receives from the proxy are exactly the well-formed messages the client sent after start-up, and the bytes the client receives are exactly the messages the database sent: none is lost, duplicated, reordered, merged, altered or held back while the peer waits for it. This covers every frontend and backend message, including password, SASL and GSS authentication exchanges, the extended query protocol, COPY and asynchronous notices, at any size and however the streams are chunked.",
     ["inputs", "schedules", "histories"], "every sequence of well-formed messages in each direction, every chunking and relative timing of the two streams",
     "No test ever connects a client through the proxy to a database: sessions have no tests at all, and message parsing is tested per type without direction.",
     ["pkg/server/session.go", "pkg/pg/conn.go", "pkg/pg/*_message.go"],
     [("session pumps and dispatch", "pkg/server/session.go"), ("RecvMessage type dispatch", "pkg/pg/conn.go")],
     state=[("clientIn/clientOut/dbIn/dbOut", "queued messages per direction", "pkg/server/session.go")],
     observe=["both TCP endpoints of the proxy"])

prop("C08", "The client's start-up packet reaches the database verbatim and first",
     "When a client is admitted, the proxy opens one new connection to the configured database host and port, and the first bytes sent there are the client's start-up packet, byte for byte: same protocol version, same parameters, same order, same values. Nothing is sent to the database before it, nothing the client sent for SSL negotiation is forwarded, and nothing is sent to the client except what the database sent (apart from the one-byte SSL answer).",
     ["inputs", "schedules"], "every start-up parameter list (any number, order, repetition, size, encoding) naming the proxied database, with or without a preceding SSL request, in any chunking",
     "Start-up parsing is tested on one packet and never through a session.",
     ["pkg/server/session.go", "pkg/pg/startup_message.go", "pkg/pg/startup_frame.go"],
     [("negotiateSessionParams / establishDBConnection", "pkg/server/session.go"), ("StartupMessage", "pkg/pg/startup_message.go")],
     observe=["database endpoint of the proxy", "client endpoint of the proxy"])

prop("C09", "A client can reach only the configured database",
     "A client whose start-up packet does not ask for exactly the configured database, by the rules PostgreSQL itself uses to pick one (exact name; of repeated parameters the last counts), never gets a single byte to the database server, and its connection is closed. This holds for names that differ in case, padding, prefix, suffix or encoding, for missing and empty names, for repeated and contradictory parameters, for any position of the parameter, and after an SSL request.",
     ["inputs", "configurations"], "every start-up packet and every configured database name",
     "No test drives the session's database check at all.",
     ["pkg/server/session.go", "pkg/pg/startup_message.go", "pkg/pg/dsn.go"],
     [("database comparison in negotiateSessionParams", "pkg/server/session.go"), ("GetParameter", "pkg/pg/startup_message.go")],
     observe=["connections and bytes seen by the database", "client endpoint"])

prop("C10", "Start-up negotiation: SSL is answered once with N, other versions are refused",
     "An SSL request is answered with exactly one byte 'N', after which the client may continue with a plain-text start-up packet on the same connection. A start-up packet with any other unsupported protocol version or a malformed one ends the connection without contacting the database. A client cannot keep the proxy negotiating forever: repeated SSL requests use bounded resources and do not crash the process or keep the connection open indefinitely.",
     ["inputs", "histories"], "every sequence of start-up packets a client can send: any code, any number of SSL requests, malformed packets, any chunking",
     "No test exercises negotiation; the code itself marks the repeated SSL request as a possible infinite loop.",
     ["pkg/server/session.go", "pkg/pg/startup_message.go"],
     [("negotiateSessionParams", "pkg/server/session.go")],
     observe=["client endpoint", "connections seen by the database", "process survival"])

prop("C11", "When either side hangs up the session ends, after delivering what was sent",
     "If the database closes its connection, everything it sent before is delivered to a client that keeps reading (unless the client is itself still sending, when TCP may discard it), and then the client's connection is closed; if the client closes its connection, every complete message it sent before is delivered to a database that keeps reading, and then the database connection is closed. In every case, whatever the moment (before, during or after start-up, inside a message, by reset), once what is left has been delivered or cannot be delivered any more because the receiver is gone too, the session ends, frees its goroutines and both connections, and does not crash the process.",
     ["schedules", "fault_sequences", "histories"], "every point of the conversation at which either side may close or reset, every amount of data still in flight, every schedule of the session's goroutines",
     "No test closes a client or database connection of a running session; the panics, leaks and lost messages here depend on schedule and timing.",
     ["pkg/server/session.go", "pkg/server/server.go"],
     [("Session.Start goroutine group and Close", "pkg/server/session.go"), ("removeSession", "pkg/server/server.go")],
     state=[("sessions", "active sessions of the server", "pkg/server/server.go")],
     observe=["both endpoints", "return of ServeConn", "goroutines and file descriptors of the process"])

prop("C12", "Sessions are isolated from each other",
     "Concurrent sessions never exchange data: every byte a database connection receives comes from the one client it was opened for, and every byte a client receives comes from its own database connection. A session that misbehaves in any way (malformed or hostile packets, refused database, unreachable database, stalled or vanished peer) ends or stalls alone; all other sessions, current and future, keep working.",
     ["schedules", "inputs", "fault_sequences"], "every number and interleaving of concurrent sessions and every misbehaviour of some of them",
     "Server tests open one connection and never transfer data; no test runs two sessions or a misbehaving one.",
     ["pkg/server/server.go", "pkg/server/session.go", "pkg/pg/conn.go"],
     [("one Session per connection", "pkg/server/server.go"), ("session-local channels and connections", "pkg/server/session.go")],
     observe=["all client and database endpoints, with per-session unique payloads"])

prop("C13", "Each direction makes progress whenever its own peer reads; buffering is bounded",
     "Within a session, data keeps flowing from one side as long as the receiver of that direction keeps reading, even if the other direction is completely stalled or both are saturated, so a client that pipelines requests while reading replies never deadlocks. When a receiver stops reading, the proxy takes only a bounded number of further messages from the sender, and everything is delivered when it resumes.",
     ["schedules", "histories"], "every combination of stalled, slow and saturated directions, any pipelining depth and message sizes",
     "No test moves data through a session, let alone with a stalled or saturated direction.",
     ["pkg/server/session.go"],
     [("message channels and dispatch between them", "pkg/server/session.go")],
     state=[("clientIn/clientOut/dbIn/dbOut", "bounded queues", "pkg/server/session.go")],
     observe=["bytes accepted and delivered at both endpoints"])

prop("C14", "Server shutdown closes everything, whenever it happens",
     "Closing a server, at any moment and however often and concurrently, returns without panicking after closing its listener and all its sessions: afterwards no listener of the server accepts, every client and database connection of its sessions is closed, its goroutines have ended, and connections or listeners handed to it during or after the close are refused with the server-closed error and closed rather than leaked.",
     ["schedules", "histories", "crash_points"], "every moment at which Close can be called relative to accepts, session registration, negotiation, dialling (also to an unresponsive host), traffic and listener changes, and every interleaving with them",
     "The tests close a server with at most one idle session at one fixed moment; the interleavings with accept, registration, dialling and listener change are never produced.",
     ["pkg/server/server.go", "pkg/server/session.go"],
     [("Server.Close, shutdown event, wait group", "pkg/server/server.go"), ("registerSession / changeListener", "pkg/server/server.go"), ("Session.Close", "pkg/server/session.go")],
     state=[("sessions", "active sessions", "pkg/server/server.go"), ("listener", "active listener", "pkg/server/server.go")],
     observe=["return of Close, Serve, ServeConn, Start", "endpoints", "goroutines"])

prop("C15", "The server listens on the address of the latest configuration, and only there",
     "After any sequence of configuration changes, however quickly they follow each other, a started server ends up accepting clients on the address of the latest configuration and on no earlier one. If a new address cannot be bound, the server stays up and keeps accepting on the previous one until a usable address arrives; a configuration that does not change the address does not interrupt listening, and established sessions survive every change.",
     ["histories", "schedules", "fault_sequences"], "every sequence of configurations (changed, unchanged, unusable addresses), every timing between them, every schedule of the server's goroutines",
     "One test changes the address once and waits; rapid changes, unusable addresses, unchanged addresses and live sessions are not tested.",
     ["pkg/server/server.go", "pkg/server/config_distributor.go"],
     [("Start loop", "pkg/server/server.go"), ("changeListener", "pkg/server/server.go"), ("listen-changed subscription check", "pkg/server/server.go")],
     state=[("listener", "current listener", "pkg/server/server.go")],
     observe=["which addresses accept connections", "liveness of sessions"])

prop("C16", "The accept loop survives temporary errors and serves every accepted client",
     "A temporary accept error never stops the server: every client connection the listener hands out, before, between or after any number of temporary errors, is served independently, without waiting for other clients. A permanent accept error ends serving with that error, exactly once, and does not disturb sessions already running.",
     ["fault_sequences", "schedules"], "every sequence of accepted connections, temporary and permanent errors returned by the listener",
     "The tests accept one connection from a healthy listener.",
     ["pkg/server/server.go"],
     [("Serve loop", "pkg/server/server.go"), ("do", "pkg/server/server.go")],
     observe=["Serve's return value", "service given to each accepted connection"])

prop("C17", "A server starts at most once and reports closed or started states correctly",
     "Of any number of concurrent or repeated starts of one server, exactly one runs and it returns only after Close, with the server-closed error; every other one returns the already-started error, or the server-closed error if the server was closed before. After Close has returned, Start, Serve and ServeConn return the server-closed error without serving anything, and further Close calls return nil. Configuration changes after a server was closed are harmless to the process and to other subscribers.",
     ["schedules", "histories"], "every interleaving and repetition of Start, Serve, ServeConn, Close and configuration updates",
     "One test performs one fixed sequential order of Start, Close and Start.",
     ["pkg/server/server.go", "pkg/server/event.go", "pkg/server/config_distributor.go"],
     [("start and shutdown events", "pkg/server/server.go"), ("Subscribe/Unsubscribe by Start", "pkg/server/server.go")],
     state=[("start, shutdown", "one-time events", "pkg/server/server.go")],
     observe=["return values", "process survival"])

prop("C18", "Reading the current configuration is linearizable and never blocks for ever",
     "Reading the current configuration blocks only until the first configuration arrives, then always returns the latest one: never one that was not supplied, never nothing, and never an older one than a read that finished before it began or than one already acted upon. After the distributor is closed, by a call or by its source ending, pending and later reads fail with the closed error; no interleaving of reads, updates and close leaves a read hanging.",
     ["schedules", "histories"], "every interleaving of any number of concurrent reads with updates, subscriptions and close",
     "One test reads sequentially from a single goroutine, and is racy by its own admission (it is not in the stable set).",
     ["pkg/server/config_distributor.go"],
     [("Get / waitForNextConfig", "pkg/server/config_distributor.go"), ("monitorConfig", "pkg/server/config_distributor.go")],
     state=[("lastConfig", "latest configuration", "pkg/server/config_distributor.go")],
     observe=["call/return history of Get", "deliveries to subscribers"])

prop("C19", "Each subscriber gets exactly the relevant updates, in order",
     "A subscriber receives the configuration current when it subscribed (if its checks accept it as a first one) and then every later configuration for which one of its checks, called with the previous and the new configuration, reports a relevant change: each exactly once, in the order supplied, nothing else. A subscriber without checks gets every configuration; after unsubscribing or closing has returned, nothing more is sent on its channel.",
     ["schedules", "histories"], "every sequence of configurations, every set of subscribers with every combination of checks, every interleaving of subscribing, unsubscribing and updates",
     "The tests use three configurations, two subscribers and one fixed order.",
     ["pkg/server/config_distributor.go"],
     [("Subscribe / Unsubscribe / notify", "pkg/server/config_distributor.go"), ("shouldSendUpdatedConfig", "pkg/server/config_distributor.go")],
     state=[("subscriptions", "channels and their checks", "pkg/server/config_distributor.go")],
     observe=["contents of every subscriber channel", "arguments passed to checks"])

prop("C20", "A subscriber that does not read cannot block the configuration distributor",
     "Whatever subscribers do with their channels (never read, stop reading, read late), reading the configuration, unsubscribing any channel and closing the distributor always complete, later configurations still take effect and reach the other subscribers, calls do not panic, and leave no goroutine of the distributor behind after close; a channel may be closed by its owner as soon as unsubscribing it has returned.",
     ["schedules", "histories"], "every interleaving of updates with blocked subscribers, unsubscribe, close and reads",
     "All test subscribers read everything; no test unsubscribes or closes while an update is being delivered.",
     ["pkg/server/config_distributor.go"],
     [("notification of subscribers", "pkg/server/config_distributor.go"), ("Unsubscribe / Close", "pkg/server/config_distributor.go")],
     observe=["completion of calls", "goroutines", "panics"])

prop("C21", "A one-time event fires exactly once and is seen by everyone",
     "However many goroutines fire an event, exactly one call reports that it fired it; once any call has returned, the event reports fired and its channel is closed, whoever sees the channel closed also sees the event as fired, and an event nobody fired reports neither. Every waiter is released, and firing never blocks or panics.",
     ["schedules"], "every number of concurrent firers, waiters and observers in every interleaving",
     "The tests call the three methods sequentially from one goroutine.",
     ["pkg/server/event.go"],
     [("Fire / Done / HasFired", "pkg/server/event.go")],
     state=[("fired, doneChan", "event state", "pkg/server/event.go")],
     observe=["return values", "channel state"])

prop("C22", "Start-up configuration is loaded exactly, and a bad one prevents serving",
     "For every configuration file, the program starts serving with exactly the listen address and database URL the file contains, wherever the file lies and however it is spelled in TOML. If the file is missing, unreadable, malformed or lacks a mandatory setting, the program prints an error and exits with a non-zero code without ever opening a listening socket.",
     ["inputs", "configurations"], "every file content and path: any TOML spelling, extra keys and tables, missing keys, wrong types, syntax errors, unreadable and relative paths",
     "The tests load one example file and one path that does not exist; mandatory settings and malformed files are not tested.",
     ["pkg/cli/read_server_config.go", "pkg/cli/cli.go", "pkg/server/config.go"],
     [("readServerConfig", "pkg/cli/read_server_config.go"), ("prepareConfigChan / Run", "pkg/cli/cli.go")],
     observe=["exit code, stderr, listening sockets and database connections of the running program"])

prop("C23", "The running server converges to the last good configuration saved",
     "However the configuration file is saved (rewritten in place, truncated and rewritten, in several writes, replaced by rename, deleted and recreated) and however often and quickly, the running server ends up with the last saved configuration. Contents that cannot be loaded (syntax errors, empty or half-written files, no listen address or database URL) never take effect and never stop the server or later reloads.",
     ["histories", "fault_sequences", "schedules"], "every sequence of saves by every method, good and bad contents in any order, at any time from program start on",
     "The tests append once to an open file and observe one event; replacement by rename, bad intermediate contents, bursts and early changes are not tested.",
     ["pkg/cli/file_watcher.go", "pkg/cli/watch_server_config.go", "pkg/cli/cli.go", "pkg/server/server.go"],
     [("fileWatcher", "pkg/cli/file_watcher.go"), ("watchServerConfig", "pkg/cli/watch_server_config.go"), ("prepareConfigChan", "pkg/cli/cli.go")],
     observe=["address the running program listens on", "database new sessions reach"])

prop("C24", "Command line: flags, exit codes and default configuration path",
     "--help and --version print their text and exit 0 without reading a configuration or serving, whatever the other valid flags; unknown or malformed arguments exit non-zero with a message on standard error and do not serve. --config/-c selects the configuration file, by default gevulot.toml in the current directory; --verbose/-v only adds debug output; the exit code is non-zero exactly when there was an error.",
     ["inputs", "configurations"], "every command line: every order, spelling and combination of flags, valid and invalid, from every working directory",
     "The tests run five argument lists in one directory and never look for the default configuration.",
     ["pkg/cli/cli.go", "pkg/cli/run.go", "main.go"],
     [("parseArgs", "pkg/cli/cli.go"), ("Run", "pkg/cli/cli.go")],
     observe=["exit code, output and sockets of the running program"])

prop("C25", "Database metadata is complete or an error, under any failure",
     "Inspecting a database returns the database's own name and a mapping holding exactly one entry, with the right OID, schema and name, for every table, view and materialised view outside PostgreSQL's own schemas (information_schema and those whose names begin with pg_); if the connection fails, the server reports an error or a row is malformed at any point, before, in the middle of or after the rows, the call returns an error rather than a partial or empty result. An inspector for an unreachable or refusing server is not created, and after closing an inspector every call fails and no connection stays open.",
     ["fault_sequences", "inputs"], "every catalogue of schemas, relations and names the server may hold, and a disconnect, error response or malformed row at every point of the exchange",
     "The tests need a live, healthy PostgreSQL and are not even run here; no test injects a failure.",
     ["pkg/pgmeta/inspector.go"],
     [("Inspect / DatabaseName / OIDTableMapping / Close", "pkg/pgmeta/inspector.go")],
     observe=["returned mapping and error against the fake server's script", "open connections at the server"])

prop("C26", "The program is free of data races",
     "No two goroutines of the program ever access the same memory location without synchronisation, one of them writing, in any use of the server: concurrent sessions, traffic, hang-ups, listener and configuration changes, configuration reads, subscriptions, reloads of the configuration file, and shutdown at any moment.",
     ["schedules", "histories"], "every interleaving of the server's goroutines under every workload of the other properties",
     "The stable tests run without the race detector, and even with it reach only sequential use of the server and no session traffic.",
     ["pkg/server/server.go", "pkg/server/session.go", "pkg/server/config_distributor.go", "pkg/server/event.go", "pkg/cli/file_watcher.go", "pkg/cli/cli.go", "pkg/pg/conn.go"],
     [("mutexes, events, channels", "pkg/server/*.go, pkg/cli/file_watcher.go")],
     observe=["Go race detector reports"])

prop("C27", "New sessions use the current database configuration, old ones keep theirs",
     "A client that connects after a configuration change took effect is checked against and connected to the database that configuration names; sessions established earlier stay connected to the database they started with and are not disturbed. A session whose configured database is invalid or unreachable fails alone, closing the client's connection, and the next valid configuration is used by the next client.",
     ["histories", "configurations", "schedules"], "every sequence of database settings (valid, invalid, unreachable) interleaved with clients connecting and using sessions",
     "No test connects a session to any database; the configuration tests never involve sessions.",
     ["pkg/server/session.go", "pkg/server/config_distributor.go", "pkg/pg/dsn.go"],
     [("getDBConnnectionParam", "pkg/server/session.go"), ("ConfigDistributor.Get", "pkg/server/config_distributor.go")],
     state=[("dbConnectionParams", "per-session cached parameters", "pkg/server/session.go")],
     observe=["which fake database each client reaches"])

prop("C28", "What has ended leaves nothing behind",
     "However many sessions have ended (normally, refused, malformed, without a reachable database, hung up or reset by either side at any moment), listeners have been changed, configurations read, subscribed to, updated and reloaded from the file, servers and distributors closed, messages relayed and databases inspected, the process holds no more goroutines, sockets, files, file watches and heap memory than before: it can go on for ever.",
     ["histories", "fault_sequences", "inputs"], "every number and mixture of finished sessions, listener changes, reads, subscriptions, updates, reloads, closed servers and inspections, in every way they can end",
     "The tests do each thing once and never look at goroutines, descriptors or memory afterwards.",
     ["pkg/server/session.go", "pkg/server/server.go", "pkg/server/config_distributor.go", "pkg/cli/file_watcher.go", "pkg/cli/watch_server_config.go", "pkg/pgmeta/inspector.go", "pkg/pg/conn.go"],
     [("ServeConn / removeSession / Session.Close", "pkg/server/server.go, session.go"), ("Unsubscribe / Close", "pkg/server/config_distributor.go"), ("handleEvents", "pkg/cli/file_watcher.go"), ("Inspect / Close", "pkg/pgmeta/inspector.go")],
     state=[("sessions", "active sessions", "pkg/server/server.go"), ("subscriptions", "configuration subscriptions", "pkg/server/config_distributor.go")],
     observe=["goroutines, descriptors, file watches and live heap of the process after each round"])

prop("C29", "Time alone changes nothing: idle and slow parties are served as ever",
     "However much time passes between two bytes of an established session, with either side silent, slow, not reading or in the middle of a message, the session stays up and relays everything that follows as before. The same holds for a server without clients or without a first configuration yet, for readers and subscribers that wait, for a configuration file that does not change for long, for an inspector that is used once in a while, and for what has been closed: only what the parties do, configuration changes and Close end anything, never a clock (limits on start-up packets and on connecting to the database aside).",
     ["schedules", "histories"], "every length of every pause in every state of sessions, readers, subscribers, listeners, the file watcher, inspectors and closed servers",
     "The tests take a second; a timeout, deadline, ticker or leftover timer that fires after minutes or days never does during a test.",
     ["pkg/server/session.go", "pkg/server/server.go", "pkg/server/config_distributor.go", "pkg/pg/conn.go", "pkg/cli/file_watcher.go", "pkg/pgmeta/inspector.go"],
     [("session pumps, connections without deadlines", "pkg/server/session.go, pkg/pg/conn.go"), ("Close's watchdog", "pkg/server/server.go"), ("waiting reads and delivery", "pkg/server/config_distributor.go"), ("handleEvents", "pkg/cli/file_watcher.go")],
     observe=["both endpoints of idle sessions while the clock is moved", "results of waiting and later calls", "process survival"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

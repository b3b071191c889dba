#!/usr/bin/env python3
"""Source of properties.jsonl (one call of P per property)."""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    OUT.append(d)

P("P01", "The server answers each request exactly once, with its own id, in order",
  "For every sequence of messages a peer sends over a connection, the server sends exactly one response per request, carrying that request's id, in the order the requests arrived, and no response for notifications or for responses it receives. A request reaches the registered handler it names exactly once with the arguments the peer sent, and the answer carries that handler's result; a request the server cannot serve (unknown tool, prompt or unconfigured resource or sampling facility, a handler that fails, or a method that does not exist) is answered with an error, reaches no handler, and does not affect the answers to later requests.",
  ["inputs", "histories", "configurations"],
  "every sequence of requests, notifications and stray responses, with any ids (repeated, negative, textual), against any set of registered tools, prompts, resource and sampling handlers",
  "Unit tests send one request of a kind to one server; pairing of responses with requests, isolation between requests and dispatch under mixed histories are properties of whole conversations.",
  ["src/server/mod.rs", "src/shared/protocol_helpers.rs"],
  [("Server::run", "src/server/mod.rs receive loop"), ("Server::handle_request", "src/server/mod.rs dispatch per request kind")],
  [("tools/prompts/resources/sampling", "registered handlers", "Server"), ("client_capabilities", "capabilities the peer declared", "Server")],
  ["messages the transport receives and sends", "handler invocations"])

P("P02", "Only a live session reaches the HTTP server, until it is deleted",
  "In session mode, a non-initialization message is processed only when it names a session the server has issued and not deleted: without a session id it is refused as a bad request, with an id never issued or already deleted it is refused as not found, and no handler runs. Initialization without an id issues a fresh id that is returned with the answer; initializing an already initialized session is refused; deleting a session ends it for good and reports it to the close callback, and one session's traffic never creates, changes or ends another. In stateless mode no ids are issued or required.",
  ["histories", "inputs", "schedules", "configurations"],
  "every interleaving of initialization, requests, notifications, stream openings and deletions by several clients, with present, absent, foreign and stale session ids, in both modes",
  "The guarantee is about histories across several clients; tests run one client down one path.",
  ["src/server/streamable_http_server.rs"],
  [("handle_post_request / validate sessions", "src/server/streamable_http_server.rs"), ("handle_delete_request", "src/server/streamable_http_server.rs")],
  [("sessions", "live sessions with their negotiated protocol version", "ServerState"), ("sse_streams", "open event streams per session", "ServerState")],
  ["HTTP status, headers and body", "handler invocations", "session callbacks"])

P("P03", "HTTP posts are validated before processing and answered per message kind",
  "A post is processed only if it declares a JSON body (415 otherwise) and accepts JSON or event streams (406 otherwise), is a JSON-RPC message (400 otherwise), and names, if any, a protocol version that the server supports and that is the one its session negotiated (400 otherwise); a refused post reaches no handler. A processed request is answered once, with its own id, in the body or on the session's open event stream; notifications and responses are acknowledged with 202 and no body. Answers to session traffic carry the session's id and its negotiated protocol version.",
  ["inputs", "histories", "configurations"],
  "every combination of header values, message kinds, session states and response modes, at every point of a session's life",
  "The checks combine (headers x session state x message kind x mode); tests cover a few rows of that table.",
  ["src/server/streamable_http_server.rs"],
  [("validate_headers, validate_protocol_version", "src/server/streamable_http_server.rs"), ("build_response", "src/server/streamable_http_server.rs")],
  None, ["HTTP status, headers and body", "handler invocations"])

P("P04", "Event streams stay within their session; reconnecting replays what was missed",
  "Events sent while a session's stream is open arrive on that stream in the order produced, each once, with ids unique on the server; at most one stream per session is open, and a second one is refused while the first lives. A client that reconnects naming the last event it saw receives exactly the later events of its own session, in order, and never an event of another session.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of requests, stream openings, disconnections at any point and reconnections with any last-seen event id by several sessions",
  "Loss, duplication and cross-session leakage only show after disconnections at particular points with several sessions.",
  ["src/server/streamable_http_server.rs"],
  [("InMemoryEventStore::store_event / replay_events_after", "src/server/streamable_http_server.rs"), ("handle_get_sse", "src/server/streamable_http_server.rs")],
  [("event store", "events per stream with their ids", "InMemoryEventStore")],
  ["SSE bytes on each stream", "HTTP status"])

P("P05", "Pending requests are completed exactly once, by their own connection only",
  "A registered pending request receives at most one response: the first one delivered for its id on the connection it was registered for; a response for an unknown, completed, cancelled or foreign-connection id is rejected and disturbs nothing. Cancelling a request ends that one only, its caller seeing its wait closed; registering an id again ends the earlier wait of that id on that connection the same way.",
  ["schedules", "histories"],
  "every order and interleaving of registrations, completions, cancellations and failures over several connections that use the same or different ids",
  "Needs all interleavings of completion and cancellation, and several connections with equal ids.",
  ["src/shared/protocol.rs"],
  [("Protocol::register_request / complete_request_for_transport / cancel_request", "src/shared/protocol.rs")],
  [("pending_requests", "id -> waiting receiver and its connection", "Protocol")], None)

P("P06", "The client speaks only after a handshake and within negotiated capabilities",
  "A client sends nothing but the initialization request before its handshake has succeeded, completes the handshake with an initialized notification, and refuses to initialize twice. Afterwards it sends a request for a feature only when the server declared that feature, failing locally and sending nothing otherwise; an error answer from the server is reported to the caller as that error.",
  ["histories", "inputs", "configurations"],
  "every server capability set and every sequence of client calls and server answers, including failed and malformed handshakes",
  "The gate must hold for every operation in every capability set and handshake state; tests try a handful.",
  ["src/client/mod.rs"],
  [("Client::initialize, ensure_initialized, assert_capability", "src/client/mod.rs")],
  [("initialized, server_capabilities", "handshake outcome", "Client")],
  ["messages the client hands to its transport", "call results"])

P("P07", "A client call returns the answer to its own request",
  "Every client call sends exactly one request with an id the client has not used before, and returns the result or error of the response bearing that id: other traffic that arrives meanwhile (notifications, server requests, stale responses) is never taken for its answer.",
  ["histories", "inputs", "schedules"],
  "every order in which responses, notifications, server requests and stale responses arrive",
  "Mock servers in tests answer immediately and in order.",
  ["src/client/mod.rs", "src/shared/protocol.rs"],
  [("Client::send_request", "src/client/mod.rs")], None, None)

P("P08", "Batches are answered completely, in order, within the concurrency limit",
  "Processing a batch runs the handler exactly once per request and returns exactly one response per request, with its id, in request order, whatever order handlers finish in; a failing or timed-out request yields an error for its own id only. Never more handlers run at once than the configured limit, and an empty batch yields an empty answer.",
  ["schedules", "inputs", "configurations"],
  "every batch size, limit, completion order and pattern of failures and timeouts",
  "Completion orders and limits combine; tests use handlers that finish in order.",
  ["src/utils/parallel_batch.rs", "src/shared/batch.rs", "src/server/batch.rs"],
  [("process_batch_parallel", "src/utils/parallel_batch.rs"), ("process_batch", "src/shared/batch.rs")], None, None)

P("P09", "Cancelling a request cancels exactly that request, once",
  "Cancelling a request that is in flight fires the cancellation signal held by its handler, and no other's, and tells the peer once with the given reason; cancelling an unknown or finished request tells the peer nothing and affects no other request. Clearing fires every outstanding signal and leaves nothing registered.",
  ["schedules", "histories"],
  "every interleaving of creation, cancellation, completion and clearing of several requests",
  "Tests cancel one token; the guarantee is about many concurrent ones.",
  ["src/server/cancellation.rs"],
  [("CancellationManager", "src/server/cancellation.rs")],
  [("tokens", "request id -> cancellation token", "CancellationManager")], None)

P("P10", "A resource update is announced exactly when somebody is subscribed to it",
  "A resource change notification is produced once, if and only if at least one client is subscribed to that resource when it changes, and the number of its subscribers is reported; subscribing twice is the same as once, unsubscribing or disconnecting ends delivery for that client and resource only.",
  ["schedules", "histories"],
  "every interleaving of subscribe, unsubscribe, disconnect and update by several clients over several resources",
  "A property of all histories over several clients and resources.",
  ["src/server/subscriptions.rs"],
  [("SubscriptionManager", "src/server/subscriptions.rs")],
  [("subscriptions", "resource -> clients, client -> resources", "SubscriptionManager")], None)

P("P11", "The root registry lists exactly the registered roots and announces each change",
  "The listed roots are exactly those registered and not since unregistered, each registration once; only file locations (file://) are accepted; unregistering removes exactly the registration it belongs to; every change of the list is announced once and a refused registration announces nothing.",
  ["histories", "inputs", "schedules"],
  "every history of registrations (valid, invalid, duplicate) and unregistrations in any order",
  "Handles can be used in any order, repeatedly and concurrently.",
  ["src/server/roots.rs"],
  [("RootsManager", "src/server/roots.rs")],
  [("roots", "registered roots", "RootsManager")], None)

P("P12", "Every user-input request resolves exactly once with its own answer",
  "A request for user input is sent out once and its caller receives exactly one outcome: the answer delivered for that request's id, a cancellation, or a timeout, whichever happens first; answers for unknown, answered, cancelled or timed-out ids are rejected and reach nobody.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of requests, answers, cancellations, timeouts and failures to send",
  "Races between answer, cancellation and timeout.",
  ["src/server/elicitation.rs"],
  [("ElicitationManager", "src/server/elicitation.rs")],
  [("pending", "outstanding requests", "ElicitationManager")], None)

P("P13", "Notification coalescing neither loses, duplicates nor reorders deliveries",
  "With coalescing, the last notification of each kind is delivered after its quiet period and superseded ones are not, each accepted notification being delivered at most once, also when flushed explicitly or at shutdown. With batching, every accepted notification is delivered exactly once, in order, in groups no larger than the configured size, within the configured time.",
  ["schedules", "histories", "configurations"],
  "every timing of arrivals, flushes and shutdown relative to the timers, for every configuration",
  "Timer-versus-arrival races cannot be sampled with sleeps.",
  ["src/server/notification_debouncer.rs"],
  [("NotificationDebouncer, NotificationBatcher", "src/server/notification_debouncer.rs")], None, None)

P("P14", "Message batching and debouncing deliver every message once and in order",
  "A message batcher delivers every accepted message exactly once, in arrival order, in batches of at most the configured size, a non-full batch no later than its waiting time. A message debouncer delivers, per key, the latest message after its quiet period and nothing else.",
  ["schedules", "histories", "configurations"],
  "every arrival pattern relative to the timers and every size and wait configuration",
  "Timer-versus-arrival races cannot be sampled with sleeps.",
  ["src/utils/batching.rs"],
  [("MessageBatcher, MessageDebouncer", "src/utils/batching.rs")], None, None)

P("P15", "Sessions live from creation to destruction or expiry, and never longer",
  "A session can be looked up, changed and validated exactly from its creation until it is destroyed or found expired, and a change to it is seen by every later lookup; once gone it never comes back. Ids are unique, the number of live sessions never exceeds the configured maximum, an expired session fails validation, and creation, destruction and expiry are each reported once per session.",
  ["schedules", "histories", "inputs"],
  "every interleaving of creation, lookup, update, authentication, validation, destruction, cleanup and passage of time by concurrent callers",
  "Lost updates and resurrections need particular interleavings of concurrent callers.",
  ["src/shared/session.rs"],
  [("SessionManager", "src/shared/session.rs")],
  [("sessions", "live sessions", "SessionManager")], None)

P("P16", "The event log keeps the newest events in order and resumes after the right one",
  "The event log holds the most recently stored events, in order, dropping only the oldest when full or too old; asking for what follows an event returns exactly the retained later events in order, at most as many as asked. A resumption token issued for a session restores that session's position and no other's, until the token expires: sequence numbers keep increasing without gaps or repeats and the pending events are that session's, after the acknowledged one.",
  ["histories", "inputs", "configurations"],
  "every sequence of stores, reads, clears, time steps and resumptions for every retention configuration",
  "Retention and resumption interact across long histories.",
  ["src/shared/event_store.rs"],
  [("InMemoryEventStore", "src/shared/event_store.rs"), ("ResumptionManager", "src/shared/event_store.rs")], None, None)

P("P17", "Reconnection follows its retry limit, backoff and circuit breaker",
  "After a disconnection the next step is decided by the configured policy alone: retries stop at the limit (also after a circuit closed again), waits grow by the configured factor and never exceed the configured maximum, jitter included, repeated failures open the circuit for its configured time during which no attempt is made, and enough successes restore the initial state.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of successes, failures and elapsed times under every policy configuration",
  "State-machine behaviour over long outcome sequences and timing.",
  ["src/shared/reconnect.rs"],
  [("ReconnectManager", "src/shared/reconnect.rs")], None, None)

P("P18", "Error recovery retries as configured and an open circuit blocks calls",
  "A recovered operation is attempted once and retried at most the configured number of times, with the configured waits between attempts, ends at its first success and otherwise reports the last error. A circuit breaker opens after the configured number of consecutive failures, lets nothing through until its timeout, then admits trials, closing after the configured successes and reopening on a failure.",
  ["histories", "fault_sequences", "configurations"],
  "every outcome sequence, timing and configuration",
  "State-machine behaviour over outcome sequences and timing.",
  ["src/error/recovery.rs"],
  [("CircuitBreaker, RecoveryExecutor, with_retry", "src/error/recovery.rs")], None, None)

P("P19", "Middleware runs in order and the first failure stops the chain",
  "Every registered middleware sees every message exactly once in registration order, each seeing the changes of those before it; the first failure stops the chain, is reported to the caller, and no later middleware runs.",
  ["configurations", "inputs", "histories"],
  "every chain length and composition, failure position and message kind",
  "Compositions are unbounded.",
  ["src/shared/middleware.rs"],
  [("MiddlewareChain", "src/shared/middleware.rs")], None, None)

P("P20", "Event-stream parsing does not depend on how the bytes are cut",
  "Feeding an event stream to the parser yields the same events whatever the chunk boundaries and line endings, without failing on any text; every dispatched event carries its data lines joined in order, its type and its id, the last event id persists, and comments and unknown fields are ignored. An event written out in the stream format reads back as the same event, and the HTTP reader delivers the same events for every way the response is cut into frames.",
  ["inputs"],
  "every event stream and every way to cut it into chunks, including inside line endings and next to multi-byte characters",
  "Cut points and character widths combine; examples cannot cover them.",
  ["src/shared/sse_parser.rs", "src/shared/http.rs"],
  [("SseParser::feed", "src/shared/sse_parser.rs")], None, None)

P("P22", "Runtime changes to the server's offer take effect atomically and are announced",
  "After tools, prompts or a resource or sampling handler are added or removed at run time, the offered set is exactly what was added and not removed (adding an existing name replaces it; a reload replaces all tools and prompts in one step), and each change is announced once to every listener registered at that time, with the capabilities that then hold: those the server declares itself plus those of what is offered; the last announcement is never an outdated one. Removing an absent tool or prompt is refused, changes nothing and announces nothing. Lookups find what is offered and what the server itself has.",
  ["histories", "schedules"],
  "every interleaving of additions, removals, reloads, lookups and listener registrations",
  "Concurrent changes and lookups.",
  ["src/server/dynamic.rs"],
  [("DynamicServerManager", "src/server/dynamic.rs")], None, None)

P("P23", "OAuth codes and tokens work once, for their client, until expiry or revocation",
  "An authorization code yields tokens at most once, only to the client and redirect address it was issued for, only before it expires and only with the matching proof key; an access token is accepted exactly from issue until expiry or revocation; a refresh token yields new tokens at most once. Revoked, rotated, expired or never-issued credentials are always refused, under any interleaving of callers.",
  ["schedules", "histories", "inputs"],
  "every interleaving of authorization, exchange, validation, refresh, revocation and passage of time by several clients",
  "One-time use under concurrency needs particular interleavings.",
  ["src/server/auth/oauth2.rs"],
  [("InMemoryOAuthProvider", "src/server/auth/oauth2.rs")],
  [("codes, tokens, refresh_tokens", "outstanding credentials", "InMemoryOAuthProvider")], None)

P("P24", "Access checks grant exactly what their configuration allows",
  "A bearer check admits exactly requests with a currently valid token (or anonymous ones where configured), a scope check admits exactly contexts holding all (or any) of its scopes, and a composite check admits a request when some member does, otherwise refusing or falling back as configured; the granted identity is the one its credential was issued to.",
  ["inputs", "configurations", "histories"],
  "every composition of checks, header form, token state and scope set",
  "Compositions and token states multiply.",
  ["src/server/auth/middleware.rs"],
  [("BearerTokenMiddleware, ScopeMiddleware, CompositeMiddleware", "src/server/auth/middleware.rs")], None, None)

P("P26", "The HTTP client keeps to the session and version the server gave it",
  "Every message the HTTP client sends is one JSON-RPC post carrying the session id and protocol version most recently given (by the server or its user), a fresh access token and the extra headers configured. Every message the server returns, as JSON or on an event stream it answers with or that the client listens on, is delivered once, in order and as it arrives, and every event id is reported; a 202 is an acceptance whatever it carries; error statuses, unusable answers and a failing token provider fail the send, and a failed send delivers nothing. Listening again, or closing, ends the stream that was listened on, and closing ends the session once.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of sends and server answers (JSON, event stream, accepted, errors) and closes",
  "A stateful conversation against arbitrary server behaviour.",
  ["src/shared/streamable_http.rs"],
  [("StreamableHttpTransport::send / receive / close", "src/shared/streamable_http.rs")], None, None)

P("P27", "The WebSocket server transport delivers messages in order and reports closure",
  "Messages sent by the server reach the connected peer in order, each once, and the peer's messages, whole or in fragments, are received in order, each once, whatever unparsable, binary or control frames arrive in between; pings are answered. Oversized messages, invalid text, reserved frames and (unless allowed) unmasked frames end the connection. Without a live peer, or after closing, sends and receives fail instead of pretending to succeed and the transport says it is not connected; what arrived before is still received. Closing tells the peer after every message sent before, and a new peer takes the place of the old, which is told so.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of sends, receives, invalid frames, disconnections and closes",
  "Disconnections at arbitrary points.",
  ["src/server/transport/websocket.rs"],
  [("WebSocketServerTransport", "src/server/transport/websocket.rs")], None, None)

P("P21", "The stdio transport delivers whole frames whatever the input and its timing",
  "Every message sent over the stdio transport is written as one frame whose announced length is the byte length of its JSON. Frames that arrive are received in order, each as one message, however the input is cut into pieces, whatever characters the message holds and whatever other header lines come with it. A body that is no message, or headers that announce no length, give one error that does not disturb the frames after it. A receive may be given up while it waits, at any point, without losing anything that has arrived. After the input has ended or the transport was closed, receives and sends fail and the transport says it is not connected; no announced length makes the process crash.",
  ["inputs", "schedules", "histories"],
  "every sequence of input bytes cut at any points (within header names, numbers, line ends and characters), with receives started, given up and repeated anywhere, sends and closes in between, and the end of input anywhere",
  "The unit tests only build the transport; framing, cancellation and hostile lengths are about byte sequences cut at every point.",
  ["src/shared/stdio.rs"],
  [("StdioTransport::receive / read_frame", "src/shared/stdio.rs"), ("StdioTransport::send", "src/shared/stdio.rs")],
  [("buffer", "input not received yet", "StdioTransport"), ("closed", "the transport is over", "StdioTransport")],
  ["stdin and stdout of a process that runs the transport"])

P("P28", "Each message is read by the peer as the message that was written",
  "Every message of any kind (request, notification or response; each method of either side) that one side writes is read by the other as the same message: kind, id, method and every parameter. Members it does not know are ignored (and kept where the type is open), optional members that are absent or null are left out, defaults are filled in, and a message without parameters is as good as one with empty ones. A message that misses a required member, has one of the wrong type, or has an unusable id is refused instead of being read as something else.",
  ["inputs"],
  "every method of the protocol with every combination of present, absent, null, mistyped and unknown members, and text and number values of all kinds",
  "Serialization tests fix one example per type; that writing and reading agree is about every combination of members.",
  ["src/shared/protocol_helpers.rs", "src/types/protocol.rs", "src/types/jsonrpc.rs", "src/shared/stdio.rs"],
  [("parse_request / create_request / parse_notification", "src/shared/protocol_helpers.rs"), ("StdioTransport::parse_message / serialize_message", "src/shared/stdio.rs")],
  None, ["bytes written", "messages read"])

P("P25", "The resource watcher reports each change of a registered file once",
  "Once watching has started, a change (written, created, removed, moved) of a file that is registered, matches the patterns and is not ignored is reported once, after it has been left alone for the debounce time (give or take a step of the timer); several changes within that time are reported as one, and none is lost however many there are at once. Nothing else is reported, and nothing after stopping. No more resources are registered than allowed, and one that is registered can always be updated. Registering, removing and listing never wait for reports being taken, and when the watcher is gone the reports end.",
  ["histories", "schedules", "inputs"],
  "every sequence of file changes, registrations, starts, stops and passing time, with the reports taken or not",
  "Debouncing is about the order and timing of changes; tests cover registration only.",
  ["src/server/resource_watcher.rs"],
  [("ResourceWatcher::start / stop / process_events", "src/server/resource_watcher.rs"), ("add_resource / remove_resource", "src/server/resource_watcher.rs")],
  [("pending_events", "changes not yet reported", "ResourceWatcher"), ("watched_resources", "registered resources", "ResourceWatcher")],
  ["files of the watched directory"])

P("P29", "The accelerated JSON and byte utilities compute what the plain ones do",
  "For every input, of whatever length and wherever in it what matters lies: fast parsing (single and batch) accepts exactly the JSON texts and gives their value; fast serializing and pretty printing write what serde_json writes; UTF-8 validation accepts exactly well-formed UTF-8; whitespace and escape search return every position, in order; Base64, XOR mask, run lengths, pattern search, copying, length checks (at most the maximum, unsigned) and checksums give the defined result. All of them end, and none touches what lies outside its buffers.",
  ["inputs"],
  "inputs of every length around the vector width with the deciding bytes at every position of a vector, before, across and after its end",
  "The repository's tests of the vector code are compiled out by default; results depend on length and position.",
  ["src/simd/mod.rs", "src/utils/json_simd.rs"],
  [("find_whitespace_simd / validate_utf8_simd / find_escapes_simd and the rest", "src/simd/mod.rs"), ("parse_json_fast / pretty_print_fast", "src/utils/json_simd.rs")],
  None, None)

P("P30", "URI templates expand as RFC 6570 says and match what they expand to",
  "Expanding a template gives, for every operator, prefix and list or set of string values, the text RFC 6570 defines, with every character escaped that has to be. A template that is not well formed is refused, and its variables are listed in order. Matching a URI gives values only if the template expands with them to that URI (up to the form of percent escapes), the same value for the same name, and it gives back the non-empty values the URI was expanded from whenever they can be told apart.",
  ["inputs"],
  "every template over literals, operators, modifiers and several variables, with values of any characters, and URIs that match, nearly match or do not",
  "Escaping, operators and several variables in an expression multiply; tests fix single examples.",
  ["src/shared/uri_template.rs"],
  [("UriTemplate::new / expand / match_uri", "src/shared/uri_template.rs")], None, None)

P("P31", "The OAuth client asks what it is told to and retries only what can be retried",
  "Discovery asks the issuer's well-known URL (whatever slashes end the issuer), again only when the network failed (no answer, a broken one) and only after the retry delay, at least once and at most as often as configured, and returns exactly the document served; any other answer is an error at once, and giving up stops the attempts. Exchanging a code, refreshing and the like are one POST each with exactly the given parameters and with client authentication only when there is a secret; they succeed only for a success status that carries a token document, and return that.",
  ["fault_sequences", "inputs", "histories"],
  "every sequence of network failures, statuses and documents over the attempts, with any retry settings and parameters",
  "Which failures are retried, and how often, is about sequences of faults.",
  ["src/client/auth.rs"],
  [("OidcDiscoveryClient::discover", "src/client/auth.rs"), ("TokenExchangeClient", "src/client/auth.rs")], None, ["requests the authorization server sees"])

P("P32", "The WebSocket client delivers messages in order and comes back as configured",
  "While connected, every message sent arrives at the server once, in order, and every message of the server is received once, in order, whatever unusable, binary or control frames come with it. When the server goes away the transport says it is not connected; what had arrived is still received, and then sends and receives report it, or, with auto_reconnect, connect again after the reconnect delay, doubling up to the maximum, giving up after the configured number of attempts. A receive given up loses nothing. Closing tells the server, nothing more is received, and nothing connects again. Connecting while connected changes nothing. A ping is sent every ping interval.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of sends, receives (waiting, given up), frames, disconnections, refused connections, closes and passing time",
  "Disconnection, reconnection and timers at arbitrary points; tests only build the transport.",
  ["src/shared/websocket.rs"],
  [("WebSocketTransport::connect / send / receive / close", "src/shared/websocket.rs"), ("WebSocketConfig", "src/shared/websocket.rs")],
  [("state", "connected or not", "WebSocketTransport")], ["frames the server sees"])

P("P33", "A request context reaches all work done for it, and no other",
  "A child context has its parent's trace, request, user, session, client, metadata and baggage, its parent's span as parent span and a new span. A context written as headers and read back keeps trace, request id, user, session and baggage and has the sender's span as parent span and a new span; headers without a complete traceparent give none, and no headers make it fail. The current context is the innermost one the running piece of work was entered with, whatever other tasks or branches run in between, and it is the former one again when that work ends, fails or is given up; tasks started separately have none. Log entries and loggers carry the current context's identifiers (none without one) and are written at their level.",
  ["histories", "schedules", "inputs"],
  "every interleaving of tasks and branches that enter and leave contexts in any way, and every header set",
  "Isolation between concurrent work and the round trip of arbitrary identifiers are not settled by one example.",
  ["src/shared/context.rs", "src/shared/logging.rs"],
  [("RequestContext::child / run / current / to_headers / from_headers", "src/shared/context.rs"), ("LogEntry::new / log, CorrelatedLogger", "src/shared/logging.rs")],
  [("REQUEST_CONTEXT", "context of the running work", "task")], None)

P("P34", "The HTTP transport sends each message once and receives each once",
  "Every message sent is one POST with the configured headers. An accepted message (2xx, with no body, a 202 whatever it carries, or with a message) succeeds; other statuses, malformed answers and answers that take longer than the timeout fail the send. Messages in answers and on the event stream are each received once, in order of arrival, every one that reached the client even if the stream then broke. When the stream ends or the transport is closed it is not connected: what had arrived is still received (not after closing), then receives fail instead of waiting. Closing ends the stream. No send waits longer than its timeout, whatever has not been received yet.",
  ["histories", "fault_sequences"],
  "every sequence of sends, receives (waiting, given up), server answers, stream events, cuts, closes and passing time",
  "A conversation against arbitrary server behaviour; tests only build the transport.",
  ["src/shared/http.rs"],
  [("HttpTransport::send / receive / connect_sse / close", "src/shared/http.rs")], None, ["requests the server sees"])

P("P35", "Argument completion offers exactly what continues the text typed",
  "A fixed completion list offers, unchanged and in its order, exactly the suggestions whose value or label begins with the text typed. File completion offers exactly the entries of the directory the typed path names (an absolute path, or one relative to the base directory, or to the working directory if there is none) whose names begin with what follows the last separator, each once, sorted, as the path as typed up to there followed by the name, and says which are directories; with extensions given, of the files only those with one of them (directories always). A directory that is not there offers nothing. The answer is complete: nothing is said to follow it.",
  ["inputs", "histories", "configurations"],
  "every list, tree of files and directories, base directory, extension set and partial path, including dot names, dot and doubled separators, absolute paths and directories that come and go",
  "One test completes one prefix over one list and file completion has none; which entries fit depends on path, base, extension and tree together.",
  ["src/types/completable.rs"],
  [("StaticCompletionProvider::complete", "src/types/completable.rs"), ("FileCompletionProvider::complete", "src/types/completable.rs")], None, None)

P("P36", "An error reaches the other side with its code, message and data",
  "A protocol error, however it was made, has the code it was made with and no other, and goes to the other side, also as the answer to a request whose tool, prompt, resource or sampling handler returned it, with exactly that code, message and data; every other error goes as an internal error (-32603) whose message contains the error's text. Read back, it has the same message and data and the same code, save that an unknown code of the range kept for servers (-32099 to -32000) is read as an internal error; reading and telling it again changes nothing more.",
  ["inputs", "histories"],
  "every kind of error, 32-bit code, text and data, told any number of times in every way a handler can return it",
  "Codes are a 32-bit space with ranges and single points, crossed with kinds and ways; tests convert a few.",
  ["src/error/mod.rs", "src/types/jsonrpc.rs", "src/server/mod.rs", "src/server/batch.rs"],
  [("ErrorCode::from_i32, Error::from_jsonrpc_error, is_error_code, error_code", "src/error/mod.rs"), ("From<Error> for JSONRPCError", "src/types/jsonrpc.rs"), ("Server::create_response", "src/server/mod.rs")], None, ["error answers"])

P("P37", "Values made with builders say what was set, and are read back the same",
  "A request for user input, a completable argument, authentication information or capabilities made with its builder or constructor holds exactly what was set, in whatever order it was set: the last setting of a kind counts, no setting undoes one of another kind, what was not set is absent or has its default, and a request for input without an identifier gets a new one of its own. Written as JSON it has exactly the members that were set, each once, and reading that gives the same value. Capabilities say they provide exactly what they declare, and authentication that it is required for every scheme but none, with a header only for a bearer token.",
  ["inputs", "histories"],
  "every sequence of settings of every builder, with empty, special and repeated values, and every combination of declared capabilities",
  "Settings interact through shared optional parts (validation, completion); tests set each once.",
  ["src/types/elicitation.rs", "src/types/completable.rs", "src/types/auth.rs", "src/types/capabilities.rs"],
  [("ElicitInputBuilder", "src/types/elicitation.rs"), ("CompletableBuilder", "src/types/completable.rs"), ("AuthInfo::is_required / authorization_header", "src/types/auth.rs"), ("supports_* / provides_*, presets", "src/types/capabilities.rs")], None, None)

P("P38", "Over every transport a call runs the handler it names and returns its answer",
  "Whether client and server are connected by WebSocket, by streamable HTTP (with sessions or without, answering as JSON or as an event stream) or by lines of JSON, the handshake tells the client the server's name, version and declared capabilities, and from then on each call runs exactly the handler it names, once, with exactly the arguments the caller gave, and returns exactly the value that handler returned, or its error with code, message and data. A call naming nothing the server has is an error and runs nothing; lists name exactly what is registered. Calls under way at the same time, of one client or of several on one server, each get their own answer.",
  ["inputs", "histories", "schedules"],
  "every sequence and overlap of calls, every argument, value and error handlers return, over each transport",
  "Each side and each transport is tested alone, with a few plain values; what the parts make of each other's output is not.",
  ["src/client/mod.rs", "src/server/mod.rs", "src/shared/streamable_http.rs", "src/server/streamable_http_server.rs", "src/shared/websocket.rs", "src/server/transport/websocket.rs", "src/shared/stdio.rs", "src/shared/protocol_helpers.rs"],
  [("Client::send_request and the calls on it", "src/client/mod.rs"), ("Server::handle_request", "src/server/mod.rs"), ("transports of both sides", "src/shared, src/server")], None, ["handler calls", "call results"])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(p, "w") as f:
        for d in OUT: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(OUT), "properties")

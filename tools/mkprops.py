#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook)))
DER = ["derive/src/impl_struct.rs", "derive/src/impl_enum/mod.rs", "derive/src/impl_enum/field.rs", "derive/src/impl_enum/variant/mod.rs", "derive/src/impl_enum/variant/struct_variant.rs", "derive/src/impl_enum/variant/tuple_variant.rs", "derive/src/impl_enum/variant/unit_variant.rs"]

p("C01", "A derived schema admits only values the Rust type can deserialize",
  "For every struct or enum that derives the schema, with any supported combination of serde attributes, and for every JavaScript value: if the generated zod schema accepts the value without altering it, then the JSON the client sends for that value deserializes into the Rust type. A client that validates its arguments with the schema never has them refused by the server.",
  ["programs", "inputs"], "every type declaration over the supported shapes (named, tuple, newtype and transparent structs; unit, tuple and struct variants under all four tagging modes; skip, default, rename, flatten, from/try_from) and every JavaScript value",
  "The tests compare the text of the schema of about 80 hand-picked declarations with an expected text; no test ever evaluates a schema, and combinations of attributes and malformed values are not covered.",
  DER, [("schema expansion of structs", "derive/src/impl_struct.rs: expand_schema"), ("schema expansion of enums and variants", "derive/src/impl_enum/**: expand_schema")],
  ["ZodType::schema() evaluated by zod", "serde_json::from_value::<T>"])
p("C02", "A derived schema admits every value of the Rust type",
  "For every struct or enum that derives the schema and every value of that Rust type which JSON can carry: the schema accepts some JavaScript value whose JSON deserializes to exactly that Rust value, and it accepts the JSON that the server itself produces for the value when the type serializes and deserializes alike. Object members that serde allows to be left out may be left out. No reachable Rust value is locked out by validation.",
  ["programs", "inputs"], "every supported type declaration and every value of the declared type",
  "The tests only pin the schema text of a few declarations; none checks that values of the type are accepted by it.",
  DER, [("schema expansion", "derive/src/impl_struct.rs, derive/src/impl_enum/**"), ("optional handling of default fields", "derive/src/impl_struct.rs: expand_optional_schema; derive/src/impl_enum/field.rs")],
  ["ZodType::schema() evaluated by zod", "serde_json::to_value::<T>"])
p("C03", "The TypeScript type and the zod schema of a type describe the same values",
  "For every type with a generated schema, the generated TypeScript type admits a value exactly when the schema admits it, apart from constraints TypeScript cannot express (numeric ranges, string formats and lengths, array lengths). Code that type-checks is not rejected by validation, and validated values have the type that was promised; this holds for the definition and for the name by which other types refer to it.",
  ["programs", "inputs"], "every supported type declaration and every JavaScript value",
  "The tests compare the type text of a few declarations with an expected text; the schema and the type are generated by two independent code paths that no test compares with each other.",
  DER + ["core/src/build_ins.rs", "core/src/lib.rs"], [("type expansion", "expand_type_def / expand_type_defs in derive/src/impl_struct.rs and derive/src/impl_enum/**"), ("built-in type names", "core/src/build_ins.rs: type_def")],
  ["ZodType::type_def(), ZodType::inline() type-checked by tsc", "ZodType::schema() evaluated by zod"])
p("C04", "Built-in types map to schemas that match their Rust value sets",
  "For every built-in Rust type (numbers, bool, char, strings, unit, IP addresses, Option, Result, tuples, arrays, vectors, sets, maps, smart pointers, cells and markers) and every composition of them, the schema and the TypeScript type admit every value the Rust type can take and reject every value outside it, including the numeric limits themselves and wrong element counts.",
  ["programs", "inputs"], "every built-in type and composition of built-in types, and every JavaScript value including all numeric boundaries",
  "Only Result has a unit test, and it compares texts; limits, wrappers, arrays, tuples and nesting are never evaluated.",
  ["core/src/build_ins.rs"], [("primitive table", "core/src/build_ins.rs: impl_primitive!"), ("wrappers, tuples and collections", "core/src/build_ins.rs: impl_wrapper!, impl_tuples!, impl_shadow!, Vec/HashSet/HashMap/Option/Result")],
  ["ZodType::schema() evaluated by zod", "serde_json::from_value::<T>"])
p("C05", "Names on the client are the names serde uses",
  "For every container, variant, field, tag and content name, under any rename or rename_all rule at container, variant or field level and for any name text, the schema and the TypeScript type use precisely the key that serde expects when it deserializes. The generated text stays valid whatever characters the name contains.",
  ["programs", "inputs"], "every serde renaming rule on every naming position, and every name text",
  "The tests try two of the eight renaming rules and a single replacement name, always a plain identifier, and only look for a substring of the schema.",
  DER, [("deserialize_name() at each naming position", "derive/src/impl_struct.rs, derive/src/impl_enum/variant/*.rs, derive/src/impl_enum/field.rs")],
  ["ZodType::schema(), ZodType::type_def()", "serde_json::from_value::<T>"])
p("C06", "The generated client module is complete and loads",
  "For every backend, the generated TypeScript is a valid module that loads without error and contains each type and each method registered in the backend's namespaces exactly once, in its own namespace and under its own name, and nothing from namespaces the backend does not have. Where the backend has the namespaces its types refer to, every reference between types resolves to the type it names, whatever the order of declaration, crossing namespaces and recursion. The run-time listings of types and methods agree with the module.",
  ["programs", "configurations"], "every backend: any set of namespaces, types, methods, cross-references and declaration order",
  "No test calls the generator at all.",
  ["core/src/rpc/server.rs", "core/src/rpc/codegen/mod.rs", "core/src/lib.rs", "derive/src/impl_inventory.rs", "derive/src/impl_namespace.rs", "derive/src/rpc/impl_rpc.rs", "src/rpc/clients/mod.rs"],
  [("module assembly", "core/src/rpc/server.rs: generate_with_options"), ("method declarations", "core/src/rpc/codegen/mod.rs: RpcMember::decl"), ("registration", "derive/src/impl_inventory.rs, derive/src/rpc/impl_rpc.rs: expand_inventory_submit")],
  ["Backend::generate::<WebsocketClient>() compiled by tsc and loaded by node", "Backend::zod_namespaces, Backend::rpc_members, Namespace::members, NamespaceMemberDefinition::collect"])
p("C07", "A call on the generated client runs that method with those arguments",
  "For every method of every backend and every argument list the generated client function accepts, exactly the method of that name in that namespace of the backend runs, once, with arguments equal to the ones passed and in the same order, and the caller receives exactly the value it returned (for a stream method, exactly the items). Arguments outside the declared types are refused on the client before anything is sent.",
  ["programs", "inputs"], "every method signature (name, argument count and types, method or stream), every namespace layout and every argument list",
  "No test dispatches a request or executes the generated client; the two halves are generated by different code and only meet at run time.",
  ["derive/src/rpc/backend_impl.rs", "derive/src/rpc/impl_rpc.rs", "derive/src/rpc/args.rs", "core/src/rpc/codegen/mod.rs", "core/src/rpc/mod.rs", "src/rpc/clients/static/websocket_client.ts"],
  [("request enum and dispatch", "derive/src/rpc/backend_impl.rs: expand_req_enum, expand_req_enum_impl"), ("method dispatch", "derive/src/rpc/impl_rpc.rs: expand_req_variant_*"), ("client functions", "core/src/rpc/codegen/mod.rs: RpcMember::decl"), ("client encoding", "src/rpc/clients/static/websocket_client.ts: execute")],
  ["generated function called in node", "backend method call log", "Response on the sender"])
p("C08", "Bad requests get one error and change nothing",
  "Every request text that does not name an existing namespace and method with arguments of the declared types is answered with exactly one error response, carrying the request's id whenever the request envelope has one, and no method runs and no stream starts or stops. Well-formed requests, whatever the order of their keys, are never refused, and no input makes the server panic or stop serving.",
  ["inputs", "histories"], "every request text over the protocol grammar with up to two deviations, alone and in the midst of other requests",
  "No test parses a request or sends a bad one.",
  ["core/src/rpc/mod.rs", "core/src/rpc/error.rs", "derive/src/rpc/backend_impl.rs", "derive/src/rpc/impl_rpc.rs", "src/rpc/servers/axum.rs", "src/rpc/servers/proxy.rs"],
  [("envelope", "core/src/rpc/mod.rs: Request"), ("error reply", "derive/src/rpc/backend_impl.rs: handle_request; core/src/rpc/mod.rs: Response::error")],
  ["Response on the sender", "backend method call log", "subscriber map"])
p("C09", "Each method request gets exactly one response, in order",
  "Under every schedule, each method request accepted from a live connection gets exactly one response with its own id, on its own connection; responses of one connection come in the order of its requests. Method bodies never overlap on one backend, each sees the effects of all methods that ran before it, and a result that cannot be serialized yields an error response with the request's id instead of silence.",
  ["schedules", "histories"], "every interleaving of connections, requests, running methods and streams",
  "No test starts a server; ordering and exclusivity depend on the scheduler.",
  ["src/rpc/servers/proxy.rs", "derive/src/rpc/impl_rpc.rs", "derive/src/rpc/backend_impl.rs", "core/src/rpc/mod.rs"],
  [("single dispatch task", "src/rpc/servers/proxy.rs: BackendProxy::new"), ("response construction", "core/src/rpc/mod.rs: Response::method"), ("reply to the request's own sender", "derive/src/rpc/impl_rpc.rs: expand_req_variant_impl_method")],
  ["ProxyRx of each connection", "backend method call log"])
p("C10", "Stream items arrive complete, in order and tagged",
  "Under every schedule, the items a connection receives for a stream request are exactly the items the stream produced, each once, in order and tagged with the request's id, up to the end of the stream or the moment it is cancelled, replaced by a later stream request with the same id, or the connection goes away. Running streams do not block other requests or other streams, and an item that cannot be serialized yields an error with that id without disturbing the other items.",
  ["schedules", "histories"], "every interleaving of streams, methods, cancellations and disconnects",
  "No test runs a stream.",
  ["derive/src/rpc/impl_rpc.rs", "core/src/rpc/mod.rs", "core/src/rpc/server.rs", "src/rpc/servers/proxy.rs"],
  [("stream task", "derive/src/rpc/impl_rpc.rs: expand_req_variant_impl_stream"), ("item construction", "core/src/rpc/mod.rs: Response::stream")],
  ["ProxyRx of each connection", "items polled from the backend's streams"])
p("C11", "Cancelling or dropping subscriptions stops exactly those streams",
  "Under every schedule, once a cancel request has been handled no further item of that stream is sent and the stream is released, while all other streams and requests go on unaffected; cancelling an unknown, finished or already cancelled id has no effect. When the subscriptions of a client are dropped, every stream started through them is stopped and released, including streams whose id had been used more than once.",
  ["schedules", "histories"], "every history of stream requests, cancellations and drops over colliding and distinct ids, at every point of the streams' progress",
  "No test cancels a stream.",
  ["derive/src/rpc/backend_impl.rs", "core/src/rpc/server.rs", "src/rpc/servers/proxy.rs"],
  [("subscriber map", "core/src/rpc/server.rs: SubscriberMap and its Drop"), ("insert and abort", "derive/src/rpc/backend_impl.rs: handle_request")],
  ["items after the cancel", "drop of the user's stream", "SubscriberMap contents"],
  [dict(name="SubscriberMap", meaning="running streams by request id", where="core/src/rpc/server.rs")])
p("C12", "Connections of one backend do not disturb each other",
  "Under every schedule, nothing one connection does (requests, equal request ids, cancellations, malformed input, disconnecting at any moment, also in the middle of its own call) changes which responses and stream items any other connection receives, other than through the shared state its methods deliberately change. The backend keeps serving the remaining and all later connections, and the streams of a connection that is gone are stopped and released. When neither a proxy nor a connection is left, the backend itself is released.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of two or more connections with equal ids, disconnects at every point",
  "No test opens a connection, let alone two.",
  ["src/rpc/servers/proxy.rs", "derive/src/rpc/backend_impl.rs", "derive/src/rpc/impl_rpc.rs", "core/src/rpc/server.rs"],
  [("per connection sender", "src/rpc/servers/proxy.rs: ProxyConnection"), ("dispatch loop", "src/rpc/servers/proxy.rs: BackendProxy::new"), ("subscribers by id", "core/src/rpc/server.rs: SubscriberMap")],
  ["ProxyRx of each connection"])
p("C13", "The WebSocket endpoint relays frames faithfully",
  "Under every schedule, over a WebSocket each text frame that is a request is handled once and in order, each text frame that is not valid is answered with exactly one error response without an id and leaves the connection usable, other frames are ignored, and each response is sent as exactly one text frame with its JSON in the order produced. When the peer closes or drops the connection at any point the server ends that session and goes on serving others.",
  ["schedules", "inputs", "fault_sequences"], "every sequence of frames and disconnects up to the bound, under every task schedule with bounded deviations",
  "No test performs a WebSocket upgrade.",
  ["src/rpc/servers/axum.rs", "src/rpc/servers/proxy.rs", "core/src/rpc/mod.rs"],
  [("receive and send loops", "src/rpc/servers/axum.rs: websocket")], ["frames at the peer"])
p("C14", "A client request settles exactly once with its own answer",
  "Whatever the order of opening, messages, errors, closing and timers, a request made through the generated client is put on the wire exactly once in the form the server understands as soon as a connection is open and in the order the requests were made, also when it was made before or while connecting or after a failed attempt. Its promise resolves with the data of the response with its id, and rejects if that response is an error; it is never settled by another request's response and it ignores unknown messages. (A request whose connection is lost after it was sent is not sent again.)",
  ["schedules", "histories", "fault_sequences"], "every order of up to a bounded number of calls, socket events, server messages and timers",
  "The client script is never executed by any test.",
  ["src/rpc/clients/static/websocket_client.ts"],
  [("request bookkeeping", "websocket_client.ts: request, execute"), ("connection", "websocket_client.ts: websocketStore: open, open_and_send, onmessage")],
  ["frames sent by a fake WebSocket", "promise of request()"])
p("C15", "A client subscription sees exactly its own stream",
  "Whatever the order of events, a subscriber of a generated stream function is called with exactly the items of its own stream that arrive while it is subscribed, each once and in order; it never sees items of other streams or requests and is never called after it unsubscribed. Subscribing or unsubscribing one subscriber does not affect the others, and each stream call sends exactly one request with a fresh id.",
  ["schedules", "histories", "fault_sequences"], "every order of a bounded number of stream calls, subscriptions, unsubscriptions, messages and socket events",
  "The client script is never executed by any test.",
  ["src/rpc/clients/static/websocket_client.ts"], [("subscriber set", "websocket_client.ts: websocketStore.subscribe, onmessage; subscribe")],
  ["callbacks of Store.subscribe", "frames sent by a fake WebSocket"])
p("C16", "The client keeps at most one connection and reconnects while needed",
  "Whatever the order of events, the client never has more than one connection open or opening; while anything is subscribed or a request is pending and the connection is lost it retries with the documented growing delays (100, 200, 1000, then every 3000 ms), restarting from the shortest after a success, and when the last subscription or pending request ends it closes the connection and does not reconnect on its own. Late events of an old connection never affect a newer one.",
  ["schedules", "histories", "fault_sequences"], "every order of a bounded number of subscriptions, socket events and timers",
  "The client script is never executed by any test.",
  ["src/rpc/clients/static/websocket_client.ts"], [("reopen logic", "websocket_client.ts: open, close, reopen, reopenTimeout")],
  ["sockets created and closed", "timers armed"], [dict(name="reopenCount", meaning="failed attempts since the last success", where="websocket_client.ts"), dict(name="openPromise", meaning="an attempt is under way", where="websocket_client.ts")])
p("C17", "Doc comments reach the client and are inert",
  "For every documentation text written as a literal on a type (however it is split over lines and attributes), the generated module carries the text in a comment attached to that type's declarations, and the text never changes what the module defines or whether it compiles.",
  ["inputs", "programs"], "every documentation text over an alphabet of comment delimiters, quotes, line breaks, braces and templates",
  "The tests check one harmless one-line comment on the docs() string and never place it into generated code.",
  ["derive/src/docs.rs", "core/src/rpc/server.rs"], [("doc rendering", "derive/src/docs.rs: to_tokens"), ("placement", "core/src/rpc/server.rs: generate_with_options")],
  ["ZodType::docs()", "Backend::generate parsed by the TypeScript compiler"])
p("C18", "Declarations that cannot work are refused at compile time, others compile",
  "A method with identifier arguments that are Send, have a schema and deserialize is accepted exactly when it takes `&mut self`, without lifetimes or type parameters, and is either async with a plain result that is Send and has a schema, or a non-async function returning a stream that is Send and of items that have one. A type is accepted exactly when it has one namespace, is not generic, a unit struct or an enum without variants, all its fields that are not skipped have a schema, the defaulted fields of a tuple struct come last, its name can be declared in TypeScript, and no other type has that name in its namespace. Names of methods and namespaces must be declarable too; a backend is accepted exactly when it is a struct of namespaces of different names, each with its methods declared exactly once. All this holds for declarations that a macro writes, wholly or in part, as for others. Everything else is a compile error, never a panic at run time or a silently wrong client, and everything accepted is there on the generated client.",
  ["programs"], "every method signature and every type declaration over the stated features",
  "The ui tests sample eleven programs and compare compiler messages; they do not enumerate the accepting side or combinations.",
  ["derive/src/rpc/args.rs", "derive/src/rpc/impl_rpc.rs", "derive/src/lib.rs", "derive/src/args.rs", "derive/src/impl_struct.rs", "derive/src/impl_enum/mod.rs"],
  [("signature checks", "derive/src/rpc/args.rs: RpcItem::from_ast"), ("duplicate registration", "derive/src/lib.rs: expand_type_registration"), ("shape checks", "derive/src/args.rs: supports(..); abort! sites")],
  ["rustc verdict"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")

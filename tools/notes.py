N["C01"] = ("property-based testing: generated procedures and requests through real client and server, round-trip oracle", "exploration", "Requests within the HTTP layer's head limits (8096 bytes, 31 fields).")
N["C02"] = ("property-based testing: generated responses from the real server and from foreign servers under generated segmentation, round-trip oracle", "exploration", "Responses with a declared length.")
N["C03"] = ("property-based testing with hostile strings in every field position; deliver-exactly-or-refuse oracle on handlers, wire bytes (reference HTTP reader) and call result", "exploration", "Struct field names are tokens.")
N["C04"] = ("property-based testing: generated sets of entry points and request targets against a reference routing model", "exploration", "Request targets without dot segments.")
N["C05"] = ("property-based testing: generated registration histories against a set model, effects observed through a started server", "exploration", "At most 40 registrations per server.")
N["C06"] = ("property-based testing: canonical requests edited into equivalent or invalid spellings, reference decoder as oracle (must accept / must reject), several requests per connection", "exploration", "")
N["C07"] = ("stateful property-based testing: request scripts on interleaved connections under generated schedules, reference HTTP reader and per-request oracle", "exploration", "No pipelining.")
N["C08"] = ("fuzzing of the server with hostile byte streams and disconnects (generated and mutated requests) next to healthy connections whose answers are the oracle", "exploration", "")
N["C09"] = ("fault injection: generated messages cut at every byte by FIN or RST, oracle: no handler invocation, no success, call fails", "fault_enumeration", "Cut positions are enumerated for short messages and sampled for long ones.")
N["C10"] = ("property-based testing: bytes of generated requests and responses read by an independent HTTP reader and compared with the reference mapping", "exploration", "")
N["C11"] = ("stateful property-based testing: histories of overlapping pooled calls, answers in generated order and cancellations, per-call oracle at caller and servers", "exploration", "Servers send no more bytes than they declare.")
N["C12"] = ("model-based testing: histories of overlapping pooled calls against a model of the idle connections in release order, observed at the servers", "exploration", "Servers do not close idle connections.")
N["C14"] = ("fault injection: pooled calls dropped, cut, garbled or unencodable at generated points, followed by further calls; oracle on which connection carries what", "fault_enumeration", "Fault points are generated, not exhaustively enumerated; servers send no more bytes than they declare.")
N["C17"] = ("differential property-based testing: generated types with edited canonical, free-form and malformed URLs, queries and header lists, decoders compared with independent reference decoders", "exploration", "Header names are tokens; unusual number spellings (+1, inf, 1e5) may be refused or accepted with the value they denote.")
N["C16"] = ("property-based testing: generated values through the modules in several carriers (round trip), encodings compared with standard codecs, mutated encodings decoded differentially", "exploration", "JSON floats are finite and exactly readable by the JSON library; nesting within its recursion limit; values the formats can express.")
N["C15"] = ("property-based testing: generated problems from every constructor sent by the real server to a raw client and to real clients (direct and enum response types), and valid or broken documents from a foreign server; document equality as oracle", "exploration", "Statuses that exist and allow a body.")
N["C18"] = ("stateful property-based testing on multi-threaded executors: generated concurrent clients against non-Sync handlers that record overlapping access, per-call oracle", "exploration", "Thread schedules are those the kernel chooses.")
N["C13"] = ("stateful property-based testing: histories of calls to addresses that refuse, hang, answer or fail otherwise, over generated durations, against a model with one-sided time bounds", "exploration", "The system clock is not stepped during a case; hanging connects come from a full accept queue.")

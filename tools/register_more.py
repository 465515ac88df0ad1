prop("C24", "Plugins see every change, can stop or amend it, and otherwise change nothing",
     "With tree plugins loaded that pass everything through, every answer and everything stored is the same as without plugins; every loaded plugin is called exactly once at each documented point of an operation with the object as it is at that point. A plugin that refuses (or is dead) makes the operation fail and leaves the state as it was; what a plugin changes, and nothing else, is what ends up stored. The server program loads every plugin its configuration names, from the directory or the list, and no other file, and they end with it.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every history of requests, every set of up to two plugins, every choice of refusals and edits per operation and hook, plugin processes killed, restarted or not starting at all; every plugin directory, list and switch of the server program",
     "The unit tests of the plugin system cover names and registration; no test runs a plugin process.",
     ["internal/plugin/tree/manager/manager.go", "internal/plugin/tree/manager/hook.go", "internal/plugin/tree/manager/chains.go", "internal/plugin/tree/common/rpc.go", "internal/plugin/tree/common/interface.go", "internal/plugin/tree/consumer/main.go", "internal/plugin/tree/provider/main.go", "cmd/netauthd/main.go", "pkg/plugin/tree/null.go", T + "entity-chains.go", T + "group-chains.go"],
     [("hooks that call plugins", "internal/plugin/tree/manager/hook.go"), ("link to the plugin process", "internal/plugin/tree/common/rpc.go"), ("chains that contain the hooks", "internal/plugin/tree/manager/chains.go")],
     "stateful property-based testing: generated histories on a server with real plugin processes, differential against a server without plugins to which the plugins' edits are applied directly",
     "Real plugin processes over the real link. Plugins with side effects of their own on shared resources are out of scope.",
     observe=["answers of the RPC interface", "the store", "calls the plugin processes receive", "the health report"])
prop("C25", "Repeated failures lock an entity out, and only that entity, for the interval",
     "With the fail2lock plugin, once the configured number of attempts on an entity failed within the configured interval, every attempt on it, the right secret included, is refused until the interval has passed; a successful authentication or a requested reset forgets the failures. No attempt on one entity affects another one, and below the limit the right secret always succeeds.",
     ["histories", "schedules", "configurations", "inputs"], "every history of attempts, locks, resets, secret changes and pauses on up to five entities, at the same time or not, under complete, partial and absent configuration",
     "The plugin has no tests; its state spans requests and it depends on time.",
     ["plugins/tree/fail2lock/main.go", "internal/plugin/tree/manager/hook.go", "internal/plugin/tree/manager/chains.go", T + "hooks/validate-entity-unlocked.go"],
     [("record of failures and the decision", "plugins/tree/fail2lock/main.go")],
     "stateful property-based testing: generated attempts against the built plugin in its own process, reference model with time ranges",
     "Time is real: for short intervals the model holds a lower and an upper bound of the failures that count, and asserts only what both agree on. Whether an attempt with a wrong secret while a reset is asked for counts is left open.",
     observe=["answers of the RPC interface"])
prop("C26", "The Go client library does and returns what it is asked",
     "Every call of the client library has exactly the effect of the request it stands for, on the master server also if another one is set for reading, or returns an error; numbers that do not fit and unknown actions are refused, and actions are accepted in any case. What its reading calls return is what the server holds: values of a key in the order of their indices, key types in any case, exactly the members, memberships and managed groups.",
     ["histories", "inputs", "configurations"], "every history of calls with every argument, with one server or a replica and its master",
     "The library has two unit tests of helpers; no test calls a server through it.",
     ["pkg/netauth/entity.go", "pkg/netauth/group.go", "pkg/netauth/auth.go", "pkg/netauth/system.go", "pkg/netauth/netauth.go", "pkg/netauth/util.go"],
     [("choice of server", "pkg/netauth/netauth.go"), ("request building and answer parsing", "pkg/netauth/entity.go"), ("group calls", "pkg/netauth/group.go"), ("key/value parsing", "pkg/netauth/util.go")],
     "stateful property-based testing: generated call histories through the library against a server on the loopback network, reference model, full comparison of state and of everything the library reads",
     "The order of values whose indices are equal or absent, keys with an index in the middle, and key types that look indexed are not asserted.",
     observe=["return values of the library", "the store of the server"])

prop("C32", "The command line tool does and says what it is told",
     "Every command of the command line tool has exactly the effect of the request it stands for, made as the entity and with the secret it was given, prints what the server holds, and exits with zero exactly if the request was carried out and its syntax is right. That holds with cached tokens, without the server's public key and with another server's key.",
     ["histories", "inputs", "configurations"], "every history of commands by entities with all kinds of powers and right, wrong and missing secrets",
     "The tool has no test at all; it is built and never run.",
     ["internal/ctl/root.go", "internal/ctl/helpers.go", "internal/ctl/entity-create.go", "internal/ctl/entity-keys.go", "internal/ctl/entity-membership.go", "internal/ctl/group-update.go", "internal/ctl/system-capabilities.go", "internal/ctl/kv2.go", "pkg/netauth/auth.go", "pkg/netauth/cache/fs/fs.go"],
     [("token acquisition and caching", "internal/ctl/helpers.go"), ("commands", "internal/ctl/entity-create.go"), ("exit status", "internal/ctl/root.go")],
     "stateful property-based testing: generated histories of runs of the built tool against a server on the loopback network, reference model, comparison of the state, of exit codes and of what is printed",
     "An unknown command below a known one shows the help, as its framework does; the order of printed lines is not asserted.",
     observe=["exit code and output of the tool", "the store of the server"])
prop("C23", "Copying a store yields a store that serves the same",
     "After a copy that reports success, the target holds exactly the values of the source, besides what it held before unless it was to be emptied, and a server over the target behaves as one over the source would. The source never changes, a trial run changes nothing, a copy that did not copy everything is not reported as a success, and no target is emptied for a source that cannot be read.",
     ["histories", "inputs", "fault_sequences"], "every contents of both stores, every direction and option, failing reads, writes and listings",
     "The tool has no test at all.",
     ["cmd/nsutil/db_copy.go", "cmd/nsutil/root.go", "internal/db/kv.go", "internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
     [("copying", "cmd/nsutil/db_copy.go")],
     "property-based testing of the built tool: generated contents, options and faults against a map model; generated histories that continue on the copied store against the reference model of the server",
     "Faults are unreadable and unwritable values and directories, values that are too large and names that are too long; copying while a server runs is ruled out by the tool's documentation.",
     observe=["exit code of the tool", "both stores read back through the storage interface"])
prop("C29", "A cached token is its owner's, whole and private",
     "A token cache returns for an owner exactly the last token that was stored for it and not removed, never that of another owner, whole even while others use the cache. The cache on disk keeps tokens for later processes in files that only their user can read, whatever was in their place before, and touches no file that is not a token.",
     ["histories", "inputs", "schedules"], "every history of storing, removing and reading for every name of an owner, over everything that may already lie at the place of a token, and every interleaving of users",
     "Tests store and read one token.",
     ["pkg/netauth/cache/fs/fs.go", "pkg/netauth/cache/memory/memory.go", "pkg/netauth/cache/tokencache.go"],
     [("tokens in files", "pkg/netauth/cache/fs/fs.go"), ("tokens in memory", "pkg/netauth/cache/memory/memory.go")],
     "stateful property-based testing against a map model with decoy files, links and directories; generated concurrent programs with and without the race detector",
     "Names that are no names of entities may be refused; interleavings are sampled.",
     observe=["the cache interface", "the files below a scratch directory"])
prop("C33", "A running server keeps what it acknowledged and obeys its settings",
     "Whatever ends netauthd, and however it is started again, it serves exactly the data of the requests it acknowledged; a request that was cut off has its whole effect or none. It serves only as its settings say: over TLS with its certificate unless told otherwise, with tokens of the set lifetime, read-only if set, with exactly the bootstrapped entity if any; with settings it cannot obey it does not start.",
     ["crash_points", "histories", "configurations"], "every history of requests, kills at any moment, orderly ends and new starts with any settings",
     "The program has no test at all.",
     ["cmd/netauthd/main.go", "internal/rpc2/server.go", "internal/token/token.go", "internal/tree/defaults.go", "internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
     [("start, settings and end", "cmd/netauthd/main.go"), ("durable writes", "internal/db/filesystem/filesystem.go")],
     "stateful property-based testing of the built server over the network: generated histories with kills at generated moments and restarts with generated settings, reference model of the server",
     "The process is killed, not the machine; bcrypt runs at its lowest cost; plugins are left to C24 and C25.", level="fault_enumeration",
     observe=["answers over the network", "the store after the end", "exit codes"])

prop("C34", "The client speaks only to servers it was told to trust",
     "Unless it is told to do without encryption, the client library sends nothing of a request, be it a name, a secret or a token, to a server that does not prove, by the configured certificate, to be the one that is configured, and nothing that could be read on the way; nor does it fall back when the certificate cannot be used. Requests to a server that does prove it succeed. That holds for the master server as for the one that is read from, for every client of a process, and when servers are replaced while in use.",
     ["configurations", "histories", "inputs"], "every kind of certificate a server may present, every content and place of the client's certificate file, every other setting, and every history of requests and replacements of servers",
     "No test of the client connects to anything.",
     ["pkg/netauth/netauth.go", "pkg/netauth/auth.go", "pkg/netauth/util.go"],
     [("choice and verification of the server", "pkg/netauth/netauth.go")],
     "stateful property-based testing against servers on the loopback network that present generated certificates (of other authorities, names, times, uses, or none) and take down every byte they receive; oracle: which of them the settings trust",
     "What is tested of TLS is that it is asked for rightly, not TLS itself. After a replacement of the server by a trustworthy one, requests may fail for a while.",
     observe=["calls that servers receive", "bytes on the network", "results of the library"])

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run it after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=na, observe=observe or ["answers of the RPC interface"]))


H = "stateful property-based testing: generated request histories against a reference model, shrunk to a replay file"
T = "internal/tree/"
R = "internal/rpc2/"

prop("C01", "Effective memberships follow the rules, from both sides",
     "After any history of changes, the members of a group are exactly its direct members together with the effective members of every included group, less the effective members of every excluded group, and the groups reported for an entity are exactly the groups that report it as a member.",
     ["histories", "inputs"], "every history of entity and group creations and destructions, direct membership changes, rule changes and restarts",
     "The unit tests resolve a handful of fixed graphs; the resolver keeps a cache that is patched on every change, so a stale or missing entry appears only after particular sequences.",
     ["internal/mresolver/memberships.go", T + "membership.go", T + "defaults.go", R + "group.go", R + "entity.go"],
     [("membership resolver and its cache", "internal/mresolver/memberships.go"), ("resolver fed by storage events", T + "membership.go")],
     H, "Every history up to the generated length over up to six entities and six groups; after every step the complete membership relation is compared from both sides.")
prop("C02", "The inclusion and exclusion rules always form a graph without cycles",
     "No request can make a group include or exclude itself, directly or through other groups, name a missing group in a rule, or rule on the same group twice; such requests are refused and change nothing. Removing a group's rule for another group removes exactly that rule.",
     ["histories", "inputs"], "every sequence of rule requests over every rule graph and every choice of group names, names that contain one another included",
     "Tests try one direct cycle; longer cycles, groups whose names contain other names and rules left by destroyed groups need particular sequences.",
     [T + "hooks/check-expansion-cycle.go", T + "hooks/check-immediate-expansions.go", T + "hooks/check-expansion-targets.go", T + "hooks/patch-group-expansions.go", T + "defaults.go"],
     [("cycle check", T + "hooks/check-expansion-cycle.go"), ("check for existing rules", T + "hooks/check-immediate-expansions.go"), ("rule edit", T + "hooks/patch-group-expansions.go")],
     H, "As C01, with rule requests dominating and names chosen to contain one another.")
prop("C03", "A restart changes nothing a client can observe",
     "Every answer the server gives (entity and group data, memberships from both sides, searches, keys, metadata, authentication) is the same before and after the server is stopped and started again over the same store.",
     ["histories", "inputs"], "every history, with a restart after any prefix of it, for the filesystem and bitcask stores",
     "Tests build a server once; what is only held in memory (indexes, membership caches) and what is really stored can differ silently until a restart.",
     [T + "membership.go", "internal/db/db.go", "internal/db/search.go", "internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
     [("loading everything at start", "internal/db/db.go"), ("indexes fed by storage events", "internal/db/search.go")],
     "stateful property-based testing: generated histories, differential between the running server and a restarted one",
     "Compares all observable answers at generated restart points.")
prop("C04", "Authentication succeeds exactly with the current secret of an unlocked entity",
     "An authentication or a request for a token succeeds if and only if the entity exists, is not locked, and the secret presented is the one most recently set successfully for it; an entity without a secret cannot authenticate with any secret, the empty one included.",
     ["histories", "inputs"], "every history of creations, destructions, re-creations, secret changes, locks and unlocks and every secret presented",
     "Tests try a right and a wrong secret on one fixed entity; destroyed and re-created entities, old secrets, near misses and refused changes need histories.",
     [T + "entity.go", T + "hooks/validate-entity-secret.go", T + "hooks/validate-entity-unlocked.go", T + "hooks/set-entity-secret.go", R + "auth.go", "internal/crypto/bcrypt/bcrypt.go", T + "defaults.go"],
     [("order of the checks", T + "defaults.go"), ("secret verification", T + "hooks/validate-entity-secret.go"), ("lock check", T + "hooks/validate-entity-unlocked.go")],
     H, "With both secret engines; secrets of more than 72 bytes are left to C31.")
prop("C05", "Nothing is changed without the capability the operation requires",
     "A request that changes the stored data takes effect only if it carries a valid token holding the capability required for that operation or the all-powerful one, apart from entities changing their own secret with the old one, their own keys, and delegated group management; a refused request changes nothing and is answered with the reason (no token, invalid token, insufficient permission).",
     ["inputs", "histories"], "every operation, every set of capabilities in the token (each single one, none, all but the needed ones), and absent, malformed or expired tokens, in every state of the data",
     "Tests check a few operations with one refused token each; the matrix of operations, capabilities and token defects is not covered, and neither is the absence of side effects.",
     [R + "util.go", R + "entity.go", R + "group.go", R + "auth.go", R + "system.go", "internal/token/claims.go"],
     [("token and capability checks", R + "util.go"), ("per operation requirement", R + "entity.go")],
     "property-based testing over the matrix of operations, capabilities and token defects, against a table of requirements and a state comparison",
     "The requirement table is written from the documentation of the interface; changes are detected on the raw store.")
prop("C06", "Delegated group management reaches exactly the managed groups",
     "Without the capability, a group's metadata, rules and memberships can be changed only by a holder of a valid token who is an effective member of the group's managing group; managing one group gives no power over others, and the delegation ends as soon as the membership or the management ends.",
     ["histories", "inputs"], "every history of memberships, rules, managing groups and token holders, and every operation tried by every entity",
     "Tests use one managing group with a direct member; chains, effective members, self-managed and unmanaged groups and mixed requests need generated states.",
     [R + "util.go", R + "group.go", T + "hooks/set-managing-group.go"],
     [("delegation check", R + "util.go"), ("per group check", R + "group.go")], H,
     "Requests naming several groups are judged group by group, in order.")
prop("C07", "A token carries exactly the capabilities its holder has",
     "A token issued to an entity carries exactly the capabilities assigned to it directly and to the groups it is effectively a member of at that moment, names that entity, and nothing else.",
     ["histories"], "every history of capability assignments, memberships and rules",
     "Tests look at one direct and one group capability; effective membership, withdrawal and duplicates need histories.",
     [R + "auth.go", R + "util.go", T + "membership.go", T + "hooks/entity-capabilities.go", T + "hooks/group-capabilities.go"],
     [("collection of capabilities", R + "auth.go")], H, "Token contents are read back from the issued token.")
prop("C08", "Only unaltered, unexpired tokens of this server's key are accepted",
     "A token is accepted if and only if it was issued under the server's current key with one of its signing methods, has not been altered, is within its period of validity, and is intended for this use; its claims then read back exactly as issued. A server without its private key issues nothing, and without its public key accepts nothing.",
     ["inputs", "configurations"], "every claim set, every alteration of a token, every signing method (none and secret-key methods with public data included), every key file state and every lifetime",
     "Tests try one forged and one expired token; the space of alterations, algorithms and key file states is not sampled.",
     ["internal/token/jwt/rsa.go", "internal/token/token.go", "internal/token/claims.go"],
     [("token verification", "internal/token/jwt/rsa.go"), ("key loading and permissions", "internal/token/jwt/rsa.go")],
     "property-based testing: round trips, mutation of tokens with an independent verifier as oracle, configuration matrix",
     "An independent implementation of signature checking decides which altered tokens may pass. Clock effects use generated validity times instead of waiting.")
prop("C09", "No answer and no line of the log ever contains a secret",
     "No answer to any request, in any state, contains an entity's secret or its stored form, whether in the data returned or in an error message. Neither does anything the server writes to its log, at whatever level of detail.",
     ["histories", "inputs"], "every request, by every caller, allowed or not, with the store working or failing, after every history",
     "Tests check two calls; each call that returns entities has its own path and each new one may forget to remove the secret.",
     [R + "entity.go", R + "group.go", R + "auth.go", "internal/db/search.go", T + "membership.go", T + "entity.go"],
     [("removal of the secret from returned entities", T + "entity.go")],
     "property-based testing: unique marker secrets, every response and every log line of generated histories scanned",
     "Both the marker secrets and their stored forms are searched for in the encoded answers.")
prop("C10", "A read-only server changes nothing",
     "A server in read-only mode refuses every changing request, whatever its token, and leaves the stored data exactly as it was, while it keeps answering reads and authentications.",
     ["inputs", "histories"], "every operation with every token in every state of the data",
     "Tests try single operations with a fixed token; self-service and delegated paths are separate.",
     [R + "util.go", R + "entity.go", R + "group.go", R + "auth.go", R + "system.go"],
     [("read-only check", R + "util.go")],
     "property-based testing over operations, tokens and states; state comparison on the raw store",
     "The rewrite of an unchanged entity is not counted as a change.")
prop("C11", "Names cannot reach outside of their own kind",
     "Whatever identifier or name a request contains, it reads and changes only the entity or group of exactly that name: entities and groups never affect one another, nothing outside of the store is read or written, and an unusable name is refused without effect.",
     ["inputs", "histories"], "every request with every byte string as a name: path separators, parent directories, wildcards, empty, long, reserved and control characters",
     "Tests use plain names only.",
     [T + "entity.go", T + "group.go", T + "defaults.go", "internal/db/db.go", "internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go", "internal/db/memory/memory.go"],
     [("key construction", "internal/db/db.go"), ("path handling", "internal/db/filesystem/filesystem.go")],
     H, "Runs in a nested scratch directory whose surroundings are compared too.")
prop("C12", "Key/value data behaves as an ordered multi-map",
     "Values added, replaced, deleted and read under a key of an entity or a group behave as in a map from keys to ordered lists of values: adding an existing key, and replacing, deleting or reading a missing one, is refused without effect; other keys, entities and groups are untouched.",
     ["histories", "inputs"], "every history of key/value requests with every key and value",
     "Tests exercise each operation once on a prepared object.",
     [T + "hooks/entity-kv.go", T + "hooks/group-kv.go", T + "entity.go", T + "group.go", R + "entity.go", R + "group.go"],
     [("key/value hooks", T + "hooks/entity-kv.go")], H, "Compared after every step, values and order included.")
prop("C13", "Untyped metadata edits change exactly the keys they name",
     "Setting, reading and clearing untyped metadata of an entity or a group affects exactly the named key: setting leaves one value, an exact clear removes only that key, a fuzzy clear removes only that key and its indexed forms, a read returns what is stored, and everything else is unchanged.",
     ["histories", "inputs"], "every history of metadata requests with every key and value, keys that are prefixes of one another included",
     "Tests use a few unrelated keys.",
     [T + "util/util.go", T + "hooks/untyped-entity-meta.go", T + "hooks/untyped-group-meta.go", R + "entity.go", R + "group.go", "internal/tree/util/util.go"],
     [("slice patching", T + "util/util.go")], H, "Keys containing a colon and the wildcard key for setting are not generated: the interface gives them no meaning.")
prop("C14", "Public keys are a set, matched exactly",
     "Adding a public key to an entity stores it once, dropping one removes exactly the key that equals it in type and content (given without a type or without content: every key of any type, or with any content), listing returns exactly what is stored, and all other keys stay.",
     ["histories", "inputs"], "every history of key requests, keys that contain one another included",
     "Tests add and drop one key.",
     [T + "hooks/entity-keys.go", T + "entity.go", R + "entity.go", T + "util/util.go"],
     [("key edit", T + "hooks/entity-keys.go")], H, "Key types are compared as the server normalises them.")
prop("C15", "Updates change only the fields they are meant for",
     "Updating the metadata of an entity changes exactly the descriptive fields given and never its secret, number, identity, lock, keys, capabilities, groups, key/value or untyped data; updating a group changes exactly the display name and managing group given and never its identity, number, rules, members or capabilities.",
     ["inputs", "histories"], "every update message, with every combination of fields filled, on every state",
     "Tests send updates with only the permitted fields filled.",
     [T + "hooks/merge-entity-meta.go", T + "hooks/merge-group-meta.go", R + "entity.go", R + "group.go", T + "hooks/set-managing-group.go"],
     [("merge of permitted fields", T + "hooks/merge-entity-meta.go")], H, "Every field of the update message is generated, forbidden ones included.")
prop("C16", "Creation never overwrites and never hands out a number in use",
     "Creating an entity or group whose name is taken is refused and leaves the existing one untouched; a creation that lets the server choose the number gets a positive one above every number in use, or is refused when none is left.",
     ["histories", "inputs"], "every history of creations and destructions with chosen and automatic numbers up to the largest possible one",
     "Tests create two entities; gaps, destroyed holders, and the end of the number range need histories.",
     [T + "hooks/fail-on-existing-entity.go", T + "hooks/fail-on-existing-group.go", T + "hooks/set-entity-number.go", T + "hooks/set-group-number.go", "internal/db/db.go"],
     [("number allocation", "internal/db/db.go"), ("existence checks", T + "hooks/fail-on-existing-entity.go")], H,
     "Numbers chosen explicitly by the caller may coincide: the interface allows it.")
prop("C17", "Capabilities are assigned and withdrawn one by one",
     "Assigning a capability to an entity or group adds exactly that one, withdrawing removes exactly that one, in any order and however often, and nothing else about the object changes.",
     ["histories"], "every history of assignments and withdrawals",
     "Tests add and remove one capability each.",
     [T + "hooks/entity-capabilities.go", T + "hooks/group-capabilities.go", R + "system.go"],
     [("capability edit", T + "hooks/entity-capabilities.go")], H, "Compared as sets after every step.")
prop("C18", "A storage fault is reported and never corrupts or half-applies a change",
     "If the store fails any of its operations during a request, the request is answered with an error whenever its effect is not in place, nothing is created over existing data, everything else stored is unchanged, and once the fault is over the server works normally with what is stored.",
     ["fault_sequences", "histories"], "every request kind with a fault at each single storage operation it performs, and sustained faults, at any point of a history",
     "No test makes the store fail in the middle of an operation.",
     ["internal/db/db.go", T + "entity.go", T + "group.go", T + "hooks/load-entity.go", T + "hooks/load-group.go", T + "hooks/save-entity.go", T + "hooks/save-group.go", T + "hooks/fail-on-existing-entity.go", T + "hooks/set-entity-number.go"],
     [("error propagation through the chains", T + "entity.go")],
     "fault injection driven by generated histories: every storage operation of the request fails in turn, against the reference model", "Faults in the store's own change notification are excluded: they happen after the change is in place.",
     level="fault_enumeration")
prop("C19", "Concurrent requests neither lose changes nor corrupt the server",
     "When requests run at the same time, the final state is one that some order of the successful ones produces: no acknowledged change is lost, numbers stay unique, creations of the same name succeed at most once, the rules stay free of cycles, and reads see complete data.",
     ["schedules", "histories"], "every interleaving, at the level of storage operations, of small sets of requests, and free-running concurrency under the race detector",
     "No test runs two requests at once.",
     [T + "entity.go", T + "group.go", T + "membership.go", "internal/mresolver/memberships.go", "internal/mresolver/type.go", "internal/db/db.go", "internal/db/search.go", T + "type.go"],
     [("serialisation of changes", T + "entity.go"), ("resolver locking", "internal/mresolver/memberships.go")],
     "schedule-controlled property-based testing (generated interleavings at storage operations) against serial executions, plus generated stress under the race detector",
     "Interleavings are controlled at storage operations; finer ones are left to the race detector.")
prop("C20", "Every store behaves as a map, announces changes and survives reopening",
     "Each storage backend returns for every key exactly the value last put, reports absence for keys never put or deleted, lists exactly the keys that match a pattern, announces each change once, and (where persistent) holds the same contents after being closed and opened again, whatever the keys, values and directory name.",
     ["histories", "inputs", "configurations"], "every history of put, get, delete, list and reopen with every key and value, for each backend",
     "Tests store one or two fixed keys per backend.",
     ["internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go", "internal/db/memory/memory.go", "internal/db/kv.go", "internal/db/callback.go"],
     [("filesystem store", "internal/db/filesystem/filesystem.go"), ("bitcask store", "internal/db/bitcask/bitcask.go"), ("memory store", "internal/db/memory/memory.go")],
     "stateful property-based testing: generated operation sequences against a map, differential across backends",
     "Keys have the two-level form the server uses.")
prop("C21", "Stores survive crashes, concurrent readers and a failing medium",
     "If the process is killed at any moment, reopening the store yields for each key the value last acknowledged or the one being written, never a mixture or nothing; readers running alongside a writer see only complete values; and a refusal by the operating system (no file handles, no room, unreadable data) is reported and never taken for absence or success.",
     ["crash_points", "schedules", "fault_sequences"], "kills at every point of generated write sequences, readers at every moment, and generated operating system refusals, for the persistent backends",
     "No test kills a process, reads while writing or limits resources.",
     ["internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
     [("write to a temporary file and rename", "internal/db/filesystem/filesystem.go"), ("log-structured store", "internal/db/bitcask/bitcask.go")],
     "generated crash points (a child process is killed at chosen system-level moments) and resource limits, against the acknowledged history",
     "Process death, not power loss: unsynchronised data survives.", level="fault_enumeration",
     observe=["contents read back through the storage interface after reopening"])
prop("C22", "Searches return exactly the data that matches now",
     "A search for entities or groups returns exactly those existing objects whose searchable fields match the expression, with their current data, after any history of changes and restarts; secrets never influence what is found.",
     ["histories", "inputs"], "every history of changes followed by every expression of required, forbidden and optional terms, fields and prefixes",
     "Tests run one fixed search on three objects; stale index entries appear only after updates and destructions.",
     ["internal/db/search.go", "internal/db/db.go", T + "search.go", R + "entity.go", R + "group.go"],
     [("index kept by storage events", "internal/db/search.go")], H,
     "Asserted for names, descriptive fields and managing groups, in a generated subset of the expression language.")
prop("C27", "Every request is answered",
     "No request, however malformed or incomplete its content, ends the server or leaves behind data that it cannot load again.",
     ["inputs", "histories"], "every message of every operation: absent parts, odd names, extreme numbers, damaged encodings, odd or missing request metadata",
     "Tests send well-formed requests.",
     [R + "entity.go", R + "group.go", R + "auth.go", R + "system.go", R + "util.go", "internal/tree/util/util.go", T + "entity.go", T + "group.go"],
     [("handlers", R + "entity.go")],
     "structure-aware fuzzing: random messages for every operation, wire-level mutations; oracle: no crash, store loadable, restart works",
     "Resource exhaustion (very slow searches, very large messages) is not covered.")
prop("C28", "The reported status is the conjunction of all subsystems",
     "The server reports itself well if and only if every registered subsystem is well, lists each subsystem once with its own status, and names as the first failure one that really failed. In the server program those include the token service, which is well exactly if its keys are there, readable and closed to others, and every plugin it loaded, which is well exactly as long as its process answers.",
     ["configurations", "histories"], "every set of subsystems and every combination of their states, over time; every state of the key files and of the plugin processes of the server program",
     "Tests use fixed sets of two.",
     ["internal/health/health.go", "internal/token/jwt/rsa.go", "internal/plugin/tree/manager/manager.go", "cmd/netauthd/main.go", R + "system.go"],
     [("aggregation", "internal/health/health.go")],
     "property-based testing: generated subsystem states against a direct computation", "Read through the request interface and the direct report.")
prop("C30", "Bootstrap works once per start, and not after it was disabled",
     "A bootstrap before serving gives exactly the named entity the given secret, an unlocked state and all power, creating it only if it is missing and leaving everything else as it was; a second one, or one after bootstrap was disabled, has no effect.",
     ["histories", "inputs"], "every history of data, bootstraps, disabling and restarts",
     "Tests bootstrap an empty server once.",
     [T + "entity.go", T + "hooks/create-entity-if-missing.go", T + "defaults.go", "cmd/netauthd/main.go"],
     [("bootstrap guard", T + "entity.go")], H, "The whole state is compared before and after.")
prop("C31", "Only the secret itself verifies against its stored form",
     "A secret verifies against the stored form made from it and no other secret does; the stored form does not contain the secret, and two stored forms never coincide.",
     ["inputs"], "every secret and every near miss of it: case, white space, prefixes, extensions, control characters, bit flips, long ones",
     "Tests use one right and one wrong secret.",
     ["internal/crypto/bcrypt/bcrypt.go", "internal/crypto/crypto.go"],
     [("secret engine", "internal/crypto/bcrypt/bcrypt.go")],
     "property-based testing with near-miss generation", "At the lowest work factor; secrets identical in the first 72 bytes are a known finding.")

exec(open(os.path.join(HERE, "tools", "register_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "register_more.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": sorted(set(p["files"])), "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --warm", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks in /repo: the harness is built into it through a build overlay."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                        "thorough_cmd": "python3 run.py %s thorough" % p["id"], "technique": p["technique"],
                        "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
SP="fieldx/src/sync/fxproxy.rs"; SL="fieldx/src/sync/fxlock.rs"; AP="fieldx/src/async/fxproxy.rs"; AL="fieldx/src/async/fxlock.rs"
CS="fieldx_derive/src/codegen/sync.rs"; CP="fieldx_derive/src/codegen/plain.rs"; CT="fieldx_derive/src/codegen/codegen_trait.rs"
CG="fieldx_derive/src/codegen.rs"; CSE="fieldx_derive/src/codegen/serde.rs"; CF="fieldx_derive/src/ctx/field.rs"
CIA="fieldx_derive/src/codegen/sync/impl_async.rs"; CIS="fieldx_derive/src/codegen/sync/impl_sync.rs"
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
PS=[("value lock","holds Option<value>; None = uninitialised",SP),("set flag","lock-free mirror of 'value is present', read by the presence predicate",SP),("stored builder","the function that produces the value",SP)]
AS=[(a,b,AP) for a,b,_ in PS]
prop("C01","Sync lazy fields: one builder run per initialisation, shared by all",
 "When any number of threads concurrently read an unset lazy field of a sync struct, its builder method runs exactly once, on behalf of one of them, and every one of those readers observes the value that single run produced. After the field is cleared, the next round of readers again gets exactly one builder run; while a value is present (built, set, written through a guard or supplied at construction) the builder never runs, and two runs for one field of one object never overlap in time.",
 ["schedules","histories","configurations"],
 "all interleavings of any number of threads using any mix of reader, accessor (by reference, copy, clone), mutable accessor, setter, writer and clearer helpers, for every declaration form of a lazy field (struct- or field-level, fallible or not, with or without default, builder-initialised, generic, reference counted)",
 "fieldx/tests/sync.rs races a handful of threads on one struct under whatever schedule the OS picks; the window between the unlocked check and the exclusive lock is a few nanoseconds and is not exercised on purpose, nor is re-initialisation racing with clear.",
 [SP,CS,CIS],[("upgradable read, upgrade, re-check before invoking the builder",SP+" read_or_init"),("generated accessors route every value-demanding access there",CS)],PS,["return values of accessors","invocations of the user's build_* method"])
prop("C02","Async lazy fields: one builder run per initialisation, shared by all",
 "When any number of tasks concurrently read an unset lazy field of an async struct, its async builder method is run to completion exactly once and every one of those readers observes the value of that run, however the tasks are interleaved, at await points and in between. A builder is started again only if the earlier run failed, panicked or was cancelled, or after the field was cleared; runs for one field of one object never overlap.",
 ["schedules","fault_sequences","histories","configurations"],
 "all interleavings of task polls (including spurious polls, late polls after a wake-up and builders that suspend any number of times), any mix of accessors, setters, writers and clearers, all declaration forms of async lazy fields",
 "fieldx/tests/async.rs spawns a few tasks on a real runtime and samples one schedule per run; suspension inside the builder while other tasks queue for the lock, plus clear/set races, are not driven.",
 [AP,CS,CIA],[("write lock held across the builder's await",AP+" read_or_init"),("async builder wrapper",CIA)],AS,["return values of accessors","begin/end of the user's async build_* method"])
prop("C03","Only access that needs a value runs a lazy builder",
 "A lazy builder runs only inside an access that demands the field's value: reader, accessor or mutable accessor, or serialisation working on its private copy. Constructing an object (new, Default, struct builder), the presence predicate, setter, writer guard (store or clear), clearer, clone, comparison and debug formatting never run any lazy builder, and accessing one field runs only that field's builder plus those the user's own builder code asks for, always handing it the object that owns the field.",
 ["schedules","histories","configurations"],
 "any sequential or concurrent history over every helper and derived trait of plain, sync and async structs in every declaration form",
 "Tests check a few straight-line sequences on single structs; they do not look at the builder count of fields they do not touch, and never while other threads race.",
 [SP,AP,CS,CP,CT,CG,CSE],[("writer/setter/clear go straight to the lock",SP),("predicate reads the flag only",CS),("no builder call in Clone/PartialEq/Debug impls",SP)],PS,["invocations of user build_* methods with the owner's identity"])
prop("C04","A lazy field of a sync struct is a linearizable register",
 "Every helper of a lazy field of a sync struct (reader, accessor by reference/copy/clone, mutable accessor, setter, writer store and clear, clearer, presence predicate) behaves as if it took effect atomically at one instant between its call and return on a single cell that is either empty or holds a value: reads return the last value stored or built, setters and clearers return exactly the value they displaced, and an empty cell is filled by the builder on demand. This holds for each field on its own and with reads, stores and the predicate mixed freely from any number of threads.",
 ["schedules","histories","configurations"],
 "all concurrent histories of all helpers of a lazy field from any number of threads, over all declaration forms",
 "Linearizability is a statement about all interleavings; existing tests assert end states of two or three fixed multi-threaded scripts.",
 [SP,CS],[("every store/clear/build happens under the exclusive value lock",SP),("flag updated inside the same critical section",SP),("generated helper bodies",CS)],PS,["invoke/return history of all helpers"])
prop("C05","A lazy field of an async struct is a linearizable register",
 "Every helper of a lazy field of an async struct behaves, for awaits that complete, as if it took effect atomically at one instant between the first poll and completion on a single cell that is either empty or holds a value, with the same results as in the sequential model; an operation dropped before completion took effect entirely or not at all. Reads return the last value stored or built, and setters and clearers return exactly the value they displaced.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of polls of any number of tasks, spurious polls, delayed polls and cancellation at any await point, over all declaration forms",
 "The async tests run fixed scripts on a real runtime; no histories are recorded or checked, and no future is ever dropped midway.",
 [AP,CS,CIA],[("every store/clear/build happens under the exclusive value lock",AP),("generated async helper bodies",CS)],AS,["invoke/return history of all async helpers"])
prop("C06","Lock-protected eager and optional fields are linearizable registers",
 "Every helper of a lock-protected non-lazy field of a sync or async struct (plain value or optional) behaves as if it took effect atomically on one cell: accessors and readers return the last value stored, setters return exactly the value they replaced, clearers return the value they removed and leave the field empty, and the predicate of an optional field reports whether it holds a value. An unset optional field stays unset until somebody sets it.",
 ["schedules","histories","configurations"],
 "all concurrent histories from any number of threads or tasks over lock, reader, writer, optional, predicate, clearer, get(copy), get(clone) and get_mut in struct-level and field-level form",
 "Existing tests check single-threaded results plus one counter incremented from several threads; they do not relate returned values to a concurrent history.",
 [SL,AL,CS],[("RwLock-wrapped storage and replace/take under one write guard",CS),("lock wrapper",SL)],[("value lock","holds the value or Option of it",SL)],["invoke/return history of all helpers"])
prop("C07","Guards exclude conflicting access and always release",
 "While a read guard obtained from any helper is alive, the value it shows does not change and no writer or builder for that field of that object proceeds; read guards of one field do not exclude one another (async lazy fields aside, whose readers take turns); while a mutable accessor guard or writer guard is alive, nobody else reads, builds, stores or clears that field, and what was done through the guard is seen by the next accessor. When a guard goes away in any manner (scope end, early return, unwinding panic, dropped task) the field becomes available again and holds exactly what was last stored.",
 ["schedules","fault_sequences","crash_points","configurations"],
 "all schedules of threads or tasks holding guards for arbitrarily long, panicking or being cancelled while holding them",
 "Tests never hold a guard across contention deliberately and never panic or cancel inside one.",
 [SP,SL,AP,AL,CS],[("returned guards are the real lock guards, mapped not copied",SP),("writer guard owns the write lock for its whole life",SP)],PS,["values seen through guards over their life","progress of blocked accessors"])
prop("C08","A failed lazy initialisation has no effect and can be retried",
 "If a lazy builder returns an error, the accessor that ran it returns exactly that error (or, through an infallible interface, panics), and if it panics the panic reaches exactly the accessor that ran it; in every mode the field then stays unset, its predicate says so, nothing else about the object changes, no lock stays held and no other access is affected. The next access that needs the value runs the builder afresh, and a setter or writer can still supply a value.",
 ["fault_sequences","schedules","histories","configurations"],
 "every pattern of builder outcomes (success, error, panic) over retries and racing threads or tasks, in plain, sync and async mode, including builders that fail after reading other fields",
 "The fallible tests cover one error and one success per mode on a single thread; builder panics, racing failures and state after failure are not tested.",
 [SP,AP,CP,CS,CIA,CIS],[("error propagated with ? before the value or the flag is written",SP),("get_or_try_init",CP),("non-poisoning locks",SP)],PS,["results of accessors","predicate and later accesses"])
prop("C09","Dropping an async operation midway is harmless",
 "If the future of any async helper is dropped at any await point, including while its lazy builder is suspended, the field holds afterwards either its old content or the complete effect of that operation, never a partial one, and no lock or queue position leaks. Every other pending operation still completes, an interrupted builder leaves the field unset, and the next access that needs the value starts the builder from the beginning.",
 ["fault_sequences","schedules","crash_points"],
 "cancellation at every possible poll of every async helper, with any number of other tasks waiting or running, followed by any further operations",
 "No existing test drops a future before completion.",
 [AP,AL,CS,CIA],[("value and flag are written only after the builder completed",AP+" read_or_init"),("guard-based locking releases on drop",AP)],AS,["completion of other tasks","field content after cancellation"])
prop("C10","Operations complete: no deadlock or lost wake-up in legal use",
 "If threads or tasks do not wait for each other in a cycle of their own making (guards held are eventually dropped, and no one asks for a field, or clones or compares its object, while holding a guard on it), every operation on every field eventually completes, including cloning, comparing and debug-printing live objects, operations on different fields at once, builders that read other lazy fields without a cycle, and comparing two objects in both directions or one with itself. This also holds after builder errors, panics, cancellations and arbitrarily delayed threads.",
 ["schedules","fault_sequences","configurations"],
 "all schedules of any mix of operations free of user-made cycles, with builder failures, panics, cancellations and stalls injected",
 "A deadlock needs a specific interleaving of three lock acquisitions; the tests would have to hit it by luck and then hang.",
 [SP,SL,AP,AL,CS],[("one value lock per field, builder lock only ever read",SP),("lock order in comparison and clone",SP)],PS,["completion of every operation"])
prop("C11","Clone, comparison and debug output of live objects are faithful",
 "Cloning an object that other threads are using yields, for every field, the state that field had at one instant during the clone (value equal and presence predicate equal), and from then on original and clone are independent: a later set, clear or lazy build of one never shows in the other, and a cloned unset lazy field builds its own value from the clone. Comparison reports field values as they were while it looked (two unset fields are equal, unset differs from any value), neither it nor debug formatting alters or builds anything, and debug formatting never waits for a guard or a builder, not even its own thread's.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of clone, comparison and debug formatting with any other operations on the objects involved, including a panicking value clone or comparison",
 "Tests clone and compare quiescent objects only.",
 [SP,SL,AL,CG],[("value and flag copied under one read guard",SP+" Clone"),("values compared under both read guards",SP+" PartialEq")],PS,["state of the clone and of the original afterwards","results of == and {:?}"])
prop("C12","Serialisation of live objects snapshots; deserialisation restores",
 "Serialising an object while it is in use emits for each serialised field the value it had at one instant during the call, and emits for an unset lazy field the value its builder produces for it, without changing the original or its lazy state; if the output fails midway an error is returned and the original is unaffected. Fields appear under their own name, the name given by rename, or the one given by the field-level serde(\"name\"). Deserialising that output yields an object whose serialised fields hold exactly those values as already set (no builder runs for them), absent optional fields stay unset, defaults fill in only what is missing or excluded, and truncated or corrupted input gives an error and never a half-made object.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all interleavings of serialisation with other operations; output failing at any byte; input truncated or corrupted at any byte; all field kinds and serde arguments",
 "Tests round-trip a few quiescent structs through in-memory strings without failing I/O and without concurrent use.",
 [CSE,SP,SL,CS,CP],[("serialise a private clone through the shadow struct",CSE),("rebuild through From<shadow>",CSE)],PS,["serialised bytes","state of the original","state of the deserialised object"])
prop("C13","Struct builder: all-or-nothing construction with exactly the given values",
 "build() succeeds exactly when every required field was given a value, and then the object holds precisely the values supplied, declared defaults for the fields not supplied, and unset lazy or optional fields otherwise; supplied lazy fields count as set and their builder never runs. If a required value is missing build() returns the error naming that field before taking anything, so the same builder can be completed and used again; a post-build hook runs exactly once per successful construction, before the object can be shared, and its error or panic is passed on and yields no object.",
 ["histories","fault_sequences","configurations"],
 "any order, repetition and omission of builder calls, repeated build attempts, failing or panicking post-build hooks and value conversions, for plain, sync and async structs, reference counted or not",
 "Tests build each struct once or twice with fixed arguments; failure followed by reuse, panics in hooks and conversions, and the interaction with lazy or locked fields are not covered.",
 [CG,CT,CS,CP],[("required-field checks precede every take()",CT+" field_builder_value_required"),("post_build chained to construction",CT+" maybe_ref_counted_create")],None,["result of build()","content of the built object"])
prop("C14","Reference-counted structs always find themselves",
 "For a reference-counted struct, asking an object for itself from any thread, at any moment while some strong reference exists, returns a handle to that very object, and after the last strong reference is gone a weak handle yields nothing. Lazy builders receive the very object that owns the field, self-handles never keep an object alive on their own, and the object with all its field values is destroyed exactly once, when the last strong handle goes away, on whatever thread that happens.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of cloning and dropping strong and weak handles, self-lookup, lazy initialisation and its failure, in plain (Rc), sync and async (Arc) form, made by new() and by the struct builder",
 "fxrc.rs and sync_arc.rs check single-threaded happy paths and do not race destruction against self-lookup or initialisation.",
 [CG,CT,CS,CP],[("new_cyclic with a stored weak self-reference",CT+" maybe_ref_counted_create"),("upgrade on demand",CG+" myself_methods")],[("weak self-reference","points to the allocation that owns the struct",CG)],["identity of handles","destruction of values"])
prop("C15","No value is lost, duplicated or leaked",
 "Every value handed to a setter, writer guard, struct builder or produced by a lazy builder is, at any time, either in its field or has been handed back to exactly one caller or destroyed exactly once; helpers that return the displaced value return that very value. This holds through races, builder errors, panics in builders, clones, conversions of values, and cancelled async operations; when an object is dropped nothing it held remains.",
 ["schedules","fault_sequences","crash_points","histories"],
 "all concurrent histories with faults injected at every user-code callback (builder, Clone, Into, Drop, PartialEq) and at every await point",
 "Tests use plain numbers and strings and cannot notice a dropped or duplicated value.",
 [SP,SL,AP,AL,CS,CP,CT],[("Option::replace/take and mem::replace under the lock",CS),("take before set in plain setters",CP)],PS,["creation and destruction of every value instance"])
prop("C16","Fields and objects do not interfere with one another",
 "An operation on one field of an object neither blocks on, changes, initialises nor reveals any other field of the same object or any field of another object: with a guard held on one field, or a lazy builder running for it for arbitrarily long, all operations on the other fields and other objects still complete with the results they would give alone. This is true for every combination of lazy, optional, locked and unlocked fields in one struct.",
 ["schedules","configurations","histories"],
 "all pairs of fields and objects, guards held or builders suspended indefinitely on one while any operations run on the other",
 "Tests never hold one field busy while driving another, and never check untouched fields.",
 [SP,SL,AP,AL,CS],[("one lock per field, no struct-wide lock",CS)],PS,["completion and results of operations on other fields"])
prop("C17","Plain structs: histories match the sequential model even under faults",
 "For plain structs every history of accessors, mutable accessors, setters, clearers, predicates and interior-mutable borrows gives exactly the results of a model with one independent cell per field: a lazy field is built once on first need, rebuilt only after a clear, setters return the displaced value, and a failed or panicking builder or conversion leaves every field as the model says. A lazy builder that reads other lazy fields initialises those once each, and an interior-mutable field reports conflicting borrows by panicking and is usable again once the conflict is over.",
 ["histories","fault_sequences","configurations"],
 "all operation histories with failing and panicking builders, conversions, clones and conflicting borrows injected at any point, over all plain declaration forms",
 "Unit tests run one short fixed script per feature without failures in the middle.",
 [CP,CT],[("OnceCell get_or_init / get_or_try_init",CP),("RefCell for inner_mut",CP)],[("field cell","OnceCell, Option, RefCell or bare value",CP)],["results of every operation"])
prop("C18","A true presence predicate means the value is really there and visible",
 "For lazy fields the lock-free presence predicate never runs ahead of or lags behind the field as seen by any one observer: once it reports a value, everything done before that value was stored or built is visible to the observing thread, a subsequent read finds a value without running the builder unless somebody cleared it, and once a clear, failed or cancelled initialisation has completed it reports no value until a new one is stored. This holds on weakly ordered memory too, in all ways the value can arrive (built, set, writer guard, construction, clone, deserialisation).",
 ["schedules","histories","fault_sequences"],
 "all interleavings and all memory orderings allowed for the atomic operations used, for sync and async lazy fields",
 "Ordering mistakes do not show on x86 hardware under a test's few schedules, and the predicate is only tested while nothing else runs.",
 [SP,AP,CS],[("atomic flag stored with release or stronger, inside the critical section, after/with the value",SP),("flag initialised from the value at construction",SP+" new_default")],PS,["predicate results against later reads and against other memory"],
 "the AtomicBool behind the predicate needs a cfg-guarded substitute so that its memory orderings can be simulated")
prop("C30","Macro expansion: names, visibility and attributes of generated items",
 "For every accepted combination of macro arguments the generated methods, builder and shadow types carry the documented names, visibility, attributes and generic parameters.",
 ["programs","configurations"],"all accepted macro inputs","Tests sample a few dozen declarations.",
 [CG,CT,"fieldx_derive/src/ctx/codegen.rs","fieldx_aux/src"],[("helper_name/vis_tok/attributes_fn",CT)])
prop("C31","Invalid macro arguments are rejected with a diagnostic",
 "Every documented-invalid or contradictory combination of arguments is refused at compile time with an error located at the offending argument, and no accepted declaration expands to code that does not compile.",
 ["programs"],"all macro inputs","trybuild tests sample a few rejected declarations.",
 ["fieldx_derive/src/util/args.rs","fieldx_derive/src/fields.rs","fieldx_aux/src"],[("darling validators","fieldx_derive/src/util/args.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p,s); assert len(p["title"])<=80,p["id"]
print(len(P))

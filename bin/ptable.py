"""The table of properties: what properties.jsonl and MANIFEST.json are made of (bin/mkmanifest.py)."""

SYNC_FILES = ["fieldx/src/sync/fxproxy.rs", "fieldx/src/sync/fxlock.rs", "fieldx_derive/src/codegen/sync.rs",
              "fieldx_derive/src/codegen/sync/impl_sync.rs"]
ASYNC_FILES = ["fieldx/src/async/fxproxy.rs", "fieldx/src/async/fxlock.rs", "fieldx_derive/src/codegen/sync.rs",
               "fieldx_derive/src/codegen/sync/impl_async.rs"]
GEN_FILES = ["fieldx_derive/src/codegen.rs", "fieldx_derive/src/codegen/codegen_trait.rs", "fieldx_derive/src/codegen/plain.rs",
             "fieldx_derive/src/codegen/sync.rs", "fieldx_derive/src/ctx/field.rs", "fieldx_derive/src/ctx/codegen.rs",
             "fieldx_derive/src/fields.rs", "fieldx_derive/src/util/args.rs"]
AUX_FILES = ["fieldx_aux/src/base_helper.rs", "fieldx_aux/src/accessor_helper.rs", "fieldx_aux/src/setter_helper.rs",
             "fieldx_aux/src/builder_helper.rs", "fieldx_aux/src/fallible.rs", "fieldx_aux/src/serde_helper.rs"]


def M(*a):
    return [dict(name=n, where=w) for n, w in a]


def S(*a):
    return [dict(name=n, meaning=m, where=w) for n, m, w in a]


T = {}


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    T[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=mech, **({"state": state} if state else {}),
                              **({"observe_at": observe} if observe else {}), hook_needed=None))


prop("C01", "A sync lazy field is initialized exactly once, whoever asks for it",
     "When any number of threads read an unset lazy field of a sync struct (by any accessor or reader, or the lazy initialization "
     "call of the field), exactly one of them runs the builder method and all of them get the value it has returned. While the value "
     "is set, the builder is never run again, and no two builder runs for one field of one object overlap.",
     ["schedules", "configurations"],
     "every interleaving of any number of threads over every combination of helpers, accessor modes, dependencies between lazy fields",
     "tests run a handful of threads with the OS scheduler, on a few structs, and can't reach the windows between checking, locking and storing",
     SYNC_FILES, M(("FXProxySync::read_or_init / lazy_init", "fieldx/src/sync/fxproxy.rs"), ("accessors of lazy sync fields", "fieldx_derive/src/codegen/sync.rs")),
     S(("is_set", "flag of the field being initialized", "FXProxySync.is_set")))
prop("C02", "Concurrent operations over a sync lazy field are linearizable",
     "Concurrent reads, writes via mutable accessors and writer guards, setters, clearers and predicates of a lazy field of a sync struct "
     "behave as if each of them took effect at a single moment between its call and return, against the model: reading an empty field "
     "initializes it, setters and clearers return the previous content, the predicate tells whether the field has a value. "
     "After a clear the next read builds the value again.",
     ["schedules", "histories", "configurations"],
     "all interleavings and histories of operations by several threads for every combination of helpers",
     "tests never check histories; a result which is impossible sequentially only shows up in specific interleavings",
     SYNC_FILES, M(("FXProxySync, FXWrLockSync", "fieldx/src/sync/fxproxy.rs"), ("generated setter/clearer/predicate", "fieldx_derive/src/codegen/sync.rs")))
prop("C03", "Concurrent operations over lock-protected fields are linearizable",
     "Concurrent reads, writes, setters, clearers and predicates of optional and lock-protected fields of a sync struct behave as if each took "
     "effect at a single moment between its call and return: a setter and a clearer return exactly the value they have replaced, "
     "no update is lost, and a read returns the latest completed update.",
     ["schedules", "histories", "configurations"],
     "all interleavings and histories of operations by several threads for every combination of helpers",
     "tests use such fields from a single thread mostly and do not check histories",
     SYNC_FILES, M(("FXRwLockSync", "fieldx/src/sync/fxlock.rs"), ("generated methods", "fieldx_derive/src/codegen/sync.rs")))
prop("C04", "Read guards are shared and stable, write guards are exclusive",
     "While a guard returned by a reader or an accessor of a sync struct is held, the value it gives access to doesn't change and isn't removed, and other "
     "threads can get their read guards and hold them at the same time, copy or clone the value, ask the predicate, and format, compare, or clone the object. While a guard returned by a writer or a mutable accessor is held, no other "
     "thread can read, change, clear, or initialize that field; other fields are not affected.",
     ["schedules", "configurations"],
     "all moments at which other threads may act while a guard is held, for every way to get a guard",
     "tests hold guards in a few fixed places; missing exclusion or excessive exclusion needs specific overlap",
     SYNC_FILES, M(("guards of parking_lot::RwLock in FXProxySync/FXRwLockSync", "fieldx/src/sync/fxproxy.rs")))
prop("C05", "A failed lazy builder of a sync field leaves the field empty and usable",
     "When a lazy builder of a sync struct returns an error or panics, the error (or the panic) gets to the caller which ran the builder, the field remains "
     "empty for everyone, and no lock stays taken. A later or a concurrently waiting read runs the builder again and can succeed; an error is never cached nor "
     "delivered to a caller which did not run the builder.",
     ["schedules", "fault_sequences", "configurations"],
     "any sequence of builder failures (errors, panics) in any interleaving",
     "tests have one or two failing builders, sequentially",
     SYNC_FILES, M(("read_or_init and lazy_init of fallible fields", "fieldx/src/sync/fxproxy.rs")))
prop("C06", "Async lazy and locked fields are linearizable; lazy ones build exactly once",
     "Concurrent tasks which use a field of an async struct (accessors, readers, writers, setters, clearers, predicates) observe it as if each operation took "
     "effect at a single moment between its call and completion; only one of the tasks awaiting for an empty lazy field runs the builder, the others get its value. "
     "A failed or panicked builder leaves the field empty, and several readers may hold their guards at once, no matter how many of them were waiting for the value.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all interleavings of polls of any number of tasks, on one thread or many",
     "tests spawn a few tasks and compare final values only",
     ASYNC_FILES, M(("FXProxyAsync", "fieldx/src/async/fxproxy.rs"), ("FXRwLockAsync", "fieldx/src/async/fxlock.rs")))
prop("C07", "Cancelling an async operation anywhere leaves the field consistent",
     "When a future of any async accessor, setter, clearer, or predicate is dropped at any of its suspension points (including the builder it runs), the field is "
     "left as if the operation was either never started or completed, no lock remains held, and no other task gets stuck. A lazy field whose initialization was cancelled "
     "is built by the next reader.",
     ["crash_points", "schedules", "histories"],
     "each suspension point of each operation, with any number of other tasks in progress",
     "no test drops a future in the middle",
     ASYNC_FILES, M(("read_or_init/lazy_init of FXProxyAsync", "fieldx/src/async/fxproxy.rs")))
prop("C08", "No deadlocks as long as guards are not held across calls",
     "Threads and tasks which do not keep guards while calling other methods never block each other forever: whichever sync or async struct, with lazy builders "
     "which read other lazy fields of the same object (without cycles), with objects being compared, cloned, formatted or dereferenced to shared handles while other threads write to them.",
     ["schedules", "configurations", "programs"],
     "all interleavings of all kinds of operations, including comparison in both directions and writers waiting in the queue of a lock",
     "a deadlock needs a writer to arrive in a specific window; tests don't mix comparison with writing",
     SYNC_FILES + ASYNC_FILES, M(("order of taking locks", "fieldx/src/sync/fxproxy.rs"), ("PartialEq, Clone of FXRwLockSync", "fieldx/src/sync/fxlock.rs")))
prop("S01", "The lazy protocol holds for every configuration",
     "For every combination of struct- and field-level arguments a lazy field is built by its builder method on the first read which finds it empty and not earlier; "
     "setting it gives the previous value if any and prevents building; clearing gives the value and makes the next read build again; the predicate tells "
     "if there is a value without building it. All ways to look at the field agree; values given by default or to the struct builder count as set.",
     ["configurations", "histories", "fault_sequences"],
     "all combinations of modes, accessors, helpers, defaults, fallibility, reference counting; any sequence of operations",
     "tests use about a dozen of hand-written structs with short fixed sequences of calls",
     GEN_FILES, M(("generated methods of lazy fields", "fieldx_derive/src/codegen/plain.rs, fieldx_derive/src/codegen/sync.rs")))
prop("S02", "The protocol of optional fields holds for every configuration",
     "For every combination of arguments an optional field (explicit, or implied by a predicate or a clearer) is empty unless initialized; the predicate is true exactly when there is a value; "
     "setting and clearing return the previous content; all accessors see the same content and the changes made through mutable ones.",
     ["configurations", "histories"],
     "all combinations of modes, accessors, helpers, defaults, interior mutability; any sequence of operations",
     "tests use few structs with short fixed sequences of calls",
     GEN_FILES, M(("generated methods of optional fields", "fieldx_derive/src/codegen/plain.rs, fieldx_derive/src/codegen/sync.rs")))
prop("S03", "Setters and accessors of always-set fields hold for every configuration",
     "For every combination of arguments a setter of a field which always has a value stores the new one (converted, if so requested) and returns the old one; "
     "accessors return the value by reference, copy, clone, or guard as requested, and what is written through a mutable accessor or a writer is what is read next.",
     ["configurations", "histories"],
     "all combinations of modes, accessors, helpers, locks and interior mutability; any sequence of operations",
     "tests use few structs with short fixed sequences of calls",
     GEN_FILES, M(("generated methods", "fieldx_derive/src/codegen/plain.rs, fieldx_derive/src/codegen/sync.rs")))
prop("I01", "A newly created object has the declared initial state",
     "However an object is created (constructor, default, builder), each field starts with: the value given to the builder; else its declared default; else empty for lazy and optional "
     "fields, and the default of its type for the others. Lazy builders are not run by creation; reading each field first time afterwards gives these values.",
     ["configurations", "inputs"],
     "all combinations of field kinds, defaults and their forms, struct builders with any subset of values given",
     "tests check several structs",
     GEN_FILES, M(("new(), Default, builder's build()", "fieldx_derive/src/codegen.rs, fieldx_derive/src/codegen/codegen_trait.rs")))
prop("G01", "Generic parameters do not change what a struct does",
     "A struct may have any generic parameters: types, lifetimes and constants, with bounds inline, in a where clause, or both, with default ones; types of fields may be projections of parameters. Whatever arguments of the macro are used, it compiles, "
     "and the struct, its struct builder, its serialization, its reference counted and cloned objects behave as those of a struct without parameters do.",
     ["configurations", "histories", "inputs"],
     "all forms of generic parameters together with all combinations of arguments; any sequence of operations",
     "tests have a couple of generic structs with bounds in where clauses",
     ["fieldx_derive/src/codegen.rs", "fieldx_derive/src/codegen/codegen_trait.rs", "fieldx_derive/src/codegen/serde.rs", "fieldx_derive/src/codegen/sync.rs", "fieldx_derive/src/input_receiver.rs", "fieldx_derive/src/ctx/codegen.rs"],
     M(("splitting of generics for impls and types", "fieldx_derive/src/codegen.rs, fieldx_derive/src/codegen/serde.rs"), ("parameters of the struct's type", "fieldx_derive/src/codegen/codegen_trait.rs")))
prop("O01", "Values are conserved: never lost, duplicated, or dropped twice",
     "Each value which enters a field (built, set, given by default, written through a guard) leaves it exactly once: either returned by a setter or a clearer, or dropped when replaced, or dropped with the object. "
     "At any quiet moment the number of living values is the number of fields having one; it holds under concurrency, failures, panics and cancellation too.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "all histories, sequential and concurrent, with failing builders and cancelled futures",
     "tests have no instance accounting",
     SYNC_FILES + ASYNC_FILES + ["fieldx_derive/src/codegen/plain.rs"], M(("replacing of values", "fieldx/src/sync/fxproxy.rs"), ("take/set/replace", "fieldx_derive/src/codegen/plain.rs")))
prop("B01", "A struct builder builds exactly what it was given or names what is missing",
     "The struct builder succeeds if and only if each mandatory field was given a value, and then the object has the last value given for each field; otherwise it reports the name of a field which really is missing, "
     "and the values given so far are not lost. "
     "Fields are mandatory unless lazy, optional, or having a default, or when explicitly required; fields outside of the builder get their defaults. "
     "A default is computed only if the value was not given.",
     ["configurations", "inputs", "histories"],
     "all combinations of builder arguments, any subset and any order and repetition of builder calls",
     "tests leave out one field of a couple of structs",
     GEN_FILES + ["fieldx/src/error.rs"], M(("build()", "fieldx_derive/src/codegen/codegen_trait.rs"), ("FieldXError::UninitializedField", "fieldx/src/error.rs")))
prop("B02", "The post-build hook runs exactly once and decides the result",
     "When a struct builder has a post-build method it is called exactly once per successful construction, after all fields are initialized, and what it returns is what the caller gets, including its error converted to the declared error type. "
     "It isn't called when a mandatory field is missing; then the declared error type carries the information about the missing field.",
     ["configurations", "fault_sequences", "inputs"],
     "all combinations of post-build forms (plain, fallible, renamed), error types, reference counting, modes",
     "tests have one struct for each form",
     GEN_FILES + ["fieldx_aux/src/builder_helper.rs"], M(("post_build call", "fieldx_derive/src/codegen/codegen_trait.rs")))
prop("N01", "The documented methods exist under the documented names, and no others",
     "For every combination of struct- and field-level arguments a field has exactly the methods its arguments ask for, where field-level arguments win over struct-level ones, `off` removes a helper, explicit names are used as they are, "
     "and otherwise names are made of the (custom or default) prefix and the name of the field or its alias.",
     ["configurations"],
     "all combinations of helper arguments at both levels",
     "presence is tested for a few combinations; absence (a helper generated when switched off) is hardly tested at all",
     GEN_FILES + AUX_FILES, M(("helper names", "fieldx_derive/src/ctx/field.rs, fieldx_derive/src/helper.rs"), ("needs_*", "fieldx_derive/src/ctx/field.rs")))
prop("N02", "Generated methods have the documented visibility",
     "A generated method is as visible as its own helper argument says; else as field's public/private argument says; else as the struct-level helper argument says; else as struct-level public/private says; "
     "else as the struct itself. A method which should be private can't be called from another module, and the one which should be public can be.",
     ["configurations"],
     "all combinations of visibility arguments at both levels, all helpers",
     "tests can't check that something doesn't compile, and cover a few positive combinations only",
     GEN_FILES + AUX_FILES, M(("vis_tok", "fieldx_derive/src/ctx/field.rs")))
prop("A01", "Attributes given for generated code are applied where declared",
     "Attributes given with `attributes`, `attributes_impl`, and `attributes_fn` arguments, whatever form they have, are applied to the generated items they are declared for and to nothing else: to each method of a field unless "
     "the helper has its own ones or a struct-level argument does; to the struct builder and its fields, to the shadow struct, to the implementation blocks.",
     ["configurations"],
     "all combinations of attribute arguments at both levels, all helpers; any form of attribute (paths, values, lists)",
     "tests have a handful of attributes with no observable effect",
     GEN_FILES + AUX_FILES + ["fieldx_aux/src/attributes.rs"], M(("attributes_fn and attributes of helpers", "fieldx_derive/src/ctx/field.rs, fieldx_derive/src/codegen/codegen_trait.rs")))
prop("R01", "Reference counted structs keep their identity and do not leak",
     "Constructors and builders of a reference-counted struct return a shared handle; from any method or lazy builder the object can get a strong handle to itself which points to the very same object, and "
     "a weak one which upgrades to it as long as it lives. When the last handle is dropped, the object and all its values are dropped, and weak handles stop upgrading; "
     "the object may still look at its weak handle then.",
     ["configurations", "histories", "schedules"],
     "all ways of creation, modes, generics, post-build hooks and lazy builders using the handle, from several threads",
     "tests check one struct per mode, without threads or leak accounting",
     GEN_FILES, M(("myself/myself_downgrade", "fieldx_derive/src/codegen.rs, fieldx_derive/src/codegen/codegen_trait.rs")))
prop("D01", "Serialization preserves the contents",
     "An object serialized and deserialized back has the same contents in each serialized field: set values remain, empty optional fields remain empty, an empty lazy field is serialized with the value its builder returns (or as an empty one "
     "if the builder returns an error). Serialization doesn't change the object itself: its empty fields remain empty. "
     "It holds in each of the concurrency modes and while other threads use the object.",
     ["configurations", "inputs", "histories"],
     "all combinations of field kinds, helper arguments, values, states",
     "tests round-trip a few objects in one state",
     ["fieldx_derive/src/codegen/serde.rs", "fieldx_derive/src/codegen/plain.rs", "fieldx_derive/src/codegen/sync.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/sync/fxlock.rs"],
     M(("shadow struct and conversions from/to it", "fieldx_derive/src/codegen/serde.rs")))
prop("D02", "Serialized form has the declared names and only the declared fields",
     "The serialized form has each serialized field once, under the name which is: its own serde name, else its alias, else its identifier (subject to struct-level renaming of all); fields with serialization switched off or skipped are absent; "
     "deserialization uses the same names, and fields with it switched off take their defaults whatever the input has. Arguments concerning only one direction don't affect the other one.",
     ["configurations", "inputs"],
     "all combinations of serde arguments at both levels",
     "tests have a few structs",
     ["fieldx_derive/src/codegen/serde.rs", "fieldx_aux/src/serde_helper.rs", "fieldx_derive/src/ctx/field.rs"], M(("shadow struct attributes", "fieldx_derive/src/codegen/serde.rs")))
prop("D03", "Deserialization of incomplete input uses defaults or fails, never guesses",
     "When the input lacks a field, the result has field's value declared with field's serde default (or the one from struct-level serde default), or an empty lazy/optional field (or its declared default), or else an error naming the missing field; "
     "when a value in the input is invalid an error is returned. No input makes deserialization panic or produce an object which breaks the protocol of its fields.",
     ["inputs", "configurations"],
     "any subset of fields, any order, unknown fields, wrong types, malformed text",
     "tests use complete inputs mostly",
     ["fieldx_derive/src/codegen/serde.rs"], M(("shadow Default and per-field default functions", "fieldx_derive/src/codegen/serde.rs")))
prop("E01", "Cloning and comparing objects of derived traits is faithful and independent",
     "A clone of an object (which is not reference counted) compares equal to it and has the same set and empty fields, without running lazy builders of either; afterwards changes in one do not show in the other. "
     "Comparison is true exactly when all fields have equal contents, symmetric, and never changes the objects.",
     ["configurations", "histories", "schedules"],
     "all field kinds in any state, with concurrent modifications",
     "tests clone one object in one state",
     SYNC_FILES + ASYNC_FILES, M(("Clone/PartialEq of proxies and locks", "fieldx/src/sync/fxproxy.rs, fieldx/src/sync/fxlock.rs")))
prop("M01", "No undefined behaviour, data races or leaks in safe use",
     "Programs which use generated structs and the library types from safe code have no undefined behaviour, data races, uses after free or memory leaks, whatever threads do, "
     "including panics and errors in builders, dropped futures, and weak handles.",
     ["schedules", "fault_sequences", "histories", "programs"],
     "all safe programs; all interleavings",
     "tests are not run under sanitizers and such errors have no visible effect usually",
     SYNC_FILES + ASYNC_FILES, M(("unsafe unwrapping and transmutation in locks", "fieldx/src/sync/fxproxy.rs")))
prop("X01", "Contradicting or invalid arguments are rejected with a diagnostic",
     "Programs with arguments documented as mutually exclusive or not applicable are rejected at compile time with an error message which points into user's code and tells what is wrong; "
     "the macro itself never panics. Valid programs next to them are never rejected.",
     ["programs", "configurations"],
     "all pairs of arguments and their values",
     "UI tests have several programs only",
     AUX_FILES + ["fieldx_derive/src/fields.rs", "fieldx_derive/src/util/args.rs", "fieldx_derive/src/input_receiver.rs"],
     M(("validate_exclusives and receivers", "fieldx_derive/src/fields.rs, fieldx_derive/src/util/args.rs")))
prop("U01", "Argument types for macro authors hold exactly what the source says",
     "A type of argument which fieldx_aux gives to macro authors (flags, values, syntax elements, tuples, lists, defaults, visibility, modes, attributes, helpers, "
     "accessors, setters, builders, serde) accepts every documented form of the argument and then holds exactly what is written there: whether it is on, names, values, visibility, attributes, modes, "
     "and the original source. Any other form - wrong type or number of subarguments, unknown, duplicate or contradicting ones - is rejected with an error, "
     "nothing panics, and conversions between arguments and plain values are consistent.",
     ["inputs", "configurations"],
     "all argument sources, all argument types with all their parameters",
     "fieldx_aux has no tests of its own; tests of the macro use a few forms of some of the types",
     ["fieldx_aux/src/lib.rs", "fieldx_aux/src/nesting_attr.rs", "fieldx_aux/src/value.rs", "fieldx_aux/src/syn_value.rs", "fieldx_aux/src/default_arg.rs",
      "fieldx_aux/src/attributes.rs", "fieldx_aux/src/util.rs", "fieldx_derive_support/src/lib.rs"] + AUX_FILES,
     M(("FXNestingAttr, FromNestAttr", "fieldx_aux/src/nesting_attr.rs"), ("fxhelper", "fieldx_derive_support/src/lib.rs")))
prop("F01", "Every combination of crate features works, and missing ones are reported",
     "With any combination of crate features enabled the crate builds, everything these features provide is available, and structs behave the same as with all features enabled. "
     "Guards may be sent to other threads if and only if the corresponding feature is enabled. A program asking, at struct or field level, for a mode or serialization whose feature is not enabled is rejected "
     "with a diagnostic which names the feature and points at the argument's attribute.",
     ["configurations", "programs"],
     "all combinations of features; all kinds of structs",
     "tests are run with default and with all features only",
     ["fieldx/src/lib.rs", "fieldx_derive/src/fields.rs", "fieldx_derive/src/util/args.rs", "fieldx_derive/src/util.rs", "fieldx_derive/src/codegen.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/async/fxproxy.rs"],
     M(("feature_required", "fieldx_derive/src/util.rs"), ("cfg(feature) gates", "fieldx/src/lib.rs")))
prop("L01", "Containers of fields behave the same when they are used directly",
     "Library types which keep values of fields - locks and lazy proxies, sync and async - keep the promises of accessors when used directly. A lock made from a value gives that value back (reading, writing, into_inner), "
     "is cloned with the contents and independent afterwards, equals another one if and only if their contents are equal, and converts (as_ref, borrow, dereference) into the very lock inside. "
     "A lazy proxy is initialized by any of read, read_mut, try_read, try_read_mut, lazy_init, by its builder called exactly once with the owner given, and only when there is no value; "
     "an error or a panic of the builder leaves it empty and is returned (try_*) or panics (read, read_mut) or is ignored (lazy_init); write guards store and clear without running the builder and return previous values; "
     "is_set and into_inner tell whether there is a value, at every moment, for concurrent use too.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of operations and interleavings over containers of each kind",
     "tests only use containers by means of accessors",
     ["fieldx/src/sync/fxproxy.rs", "fieldx/src/sync/fxlock.rs", "fieldx/src/async/fxproxy.rs", "fieldx/src/async/fxlock.rs"],
     M(("FXProxySync, FXProxyAsync", "fieldx/src/sync/fxproxy.rs, fieldx/src/async/fxproxy.rs"), ("FXRwLockSync, FXRwLockAsync", "fieldx/src/sync/fxlock.rs, fieldx/src/async/fxlock.rs")))
prop("H01", "Generated code doesn't depend on what names mean where a struct is declared",
     "A struct declared where names of the prelude, of standard library types, traits, functions, modules or macros, or of types of fieldx itself mean something else (own types and traits with such names, enum variants "
     "imported by a glob, no prelude at all) compiles and behaves - construction, builder, accessors, lazy fields, clone, serialization - exactly the same as where they have their usual meaning.",
     ["programs", "configurations"],
     "all structs and scopes",
     "tests are compiled in usual scopes only",
     ["fieldx_derive/src/codegen.rs", "fieldx_derive/src/codegen/plain.rs", "fieldx_derive/src/codegen/sync.rs", "fieldx_derive/src/codegen/sync/impl_sync.rs", "fieldx_derive/src/codegen/sync/impl_async.rs",
      "fieldx_derive/src/codegen/serde.rs", "fieldx_derive/src/ctx/field.rs", "fieldx_derive/src/ctx/codegen.rs"],
     M(("quoted code", "fieldx_derive/src/codegen.rs and modules under it")))

"""What is run for each property."""

CONC_RULE = ("a run is an object of one of generated structs used by 2-4 threads executing random operations, under a seeded "
             "scheduler which controls every lock operation (or natively with injected delays); each recorded history is checked "
             "against sequential models by a linearizability checker. Non-trivial: at least two operations overlap. Distinct by the "
             "struct, the sequence of scheduling decisions and the shape of the history")
CONC_ASSUME = ["controlled threads interleave at lock operations, builder calls and harness yields only; other interleavings come from native runs",
               "the instrumented parking_lot keeps semantics of the original one"]
SEQ_RULE = ("a run is an object of one of 120 generated structs going through a random sequence of operations; results and lazy builder "
            "calls of each operation, and the number of living values are compared with the model of the field. Non-trivial: at least one operation. "
            "Distinct by the struct, the way of creation, the operations and their results")
SEQ_ASSUME = ["methods are called under names predicted from the documentation; configurations are sampled to cover pairs of arguments per field kind"]
CONC_T = "runtime monitoring: seeded schedule control over instrumented locks, event logs checked for linearizability, native stress"
SEQ_T = "runtime monitoring: generated programs with an online model-based oracle over every operation"
CONC_N = ("Held on all histories observed, for the structs generated for this seed. Exploration, not proof: schedules and configurations are sampled "
          "(biased to contention); the struct generator and the models are trusted.")
SEQ_N = "Held on all sequences of operations observed, for the structs generated for this seed; the struct generator and the models are trusted."


def conc(quick, **kw):
    return dict(dict(quick=quick, rule=CONC_RULE, assumptions=CONC_ASSUME, technique=CONC_T, note=CONC_N), **kw)


def seq(quick, **kw):
    return dict(dict(quick=quick, rule=SEQ_RULE, assumptions=SEQ_ASSUME, technique=SEQ_T, note=SEQ_N, secs=8, tsecs=60), **kw)


def asy(quick, **kw):
    return dict(dict(quick=quick, rule=ASY_RULE, assumptions=ASY_ASSUME, technique=ASY_T, note=CONC_N), **kw)


ASY_RULE = ("a run is an object of one of generated async structs used by 2-6 tasks executing random operations under a seeded executor which picks "
            "the task to be polled, finds deadlocks exactly, and drops operations at arbitrary suspension points; or by threads natively. Each recorded "
            "history is checked against sequential models by a linearizability checker where a cancelled operation either took effect or did not. Non-trivial: at least two "
            "operations overlap (for cancellation: at least one unfinished operation is dropped). Distinct by the struct, the sequence of polls and the shape of the history")
ASY_ASSUME = ["tokio locks are used without tokio runtime"]
ASY_T = "runtime monitoring: seeded executor with cancellation, event logs checked for linearizability, exact deadlock detection, native stress"
DUP_RULE = ("a run is a set of objects of a generated struct which are cloned, compared, formatted, and changed; each comparison and each field of each clone is compared with models. In concurrent "
            "runs clones are observations in the history of the object. Non-trivial: at least one clone or comparison. Distinct by the struct and the sequence of operations and results (schedules)")

BLD_RULE = ("a run is a struct builder of one of 70 generated structs which goes through 1-3 attempts to build, each after a random sequence of setter calls; results are compared with the model: "
            "which fields are mandatory, what was given last, calls of the post-build hook and what it has seen, errors and their forms, contents of the object, and the number of living values. "
            "Non-trivial: at least one attempt to build. Distinct by the struct, sequence of setters, results and operations over the object")
SER_RULE = ("a run is an object of one of 95 generated structs which is created, changed by random operations, serialized (to text or to a value), and deserialized back, or a set of inputs made for the struct (subsets of its fields, aliases, "
            "unknown names, nulls, wrong values, duplicates, damaged text); the serialized form, results of deserialization, lazy builder calls, and the number of living values are compared with the model. In concurrent runs a serialization is an observation in the history "
            "of the object used by other threads. Non-trivial: at least one serialization or deserialization. Distinct by the struct, operations and their results, and inputs (schedules)")
RC_RULE = ("a run is an object of one of 40 generated reference counted structs and a random sequence of operations over its handles (cloning, dropping, getting a handle to itself, downgrading, upgrading, field operations), "
           "sequentially or by 2-4 threads; identity, strong count, number of living values, results of operations are compared with the model after each step. Non-trivial: at least one operation. "
           "Distinct by the struct and the sequence of operations")
VIS_RULE = ("a run is a probe of one name (a method of a generated struct or of its struct builder, a type, a trait) from one place: the module of the struct, a child module, a module inside of the visibility "
            "scope given, a module outside of it, another crate. The probe is a path expression which resolves to whatever the name means there, or to a stub if it means nothing; what it resolved to is observed at run time and compared with the prediction "
            "made from the arguments. Non-trivial: the struct has at least one field with fieldx arguments (always). Distinct by the struct's source, name, and place")
VIS_T = "runtime monitoring: generated programs which record what names resolve to, compared with an online model of naming and visibility rules"
VIS_N = "Held for all probes of the structs generated for this seed; configurations are sampled, the model of the rules and the probes are trusted."


def vis(**kw):
    return dict(dict(quick=[("vis", "", 1)], crate="vis", qrounds=4, rounds=12, rule=VIS_RULE, technique=VIS_T, note=VIS_N, need={"expected": 100, "not_expected": 100}), **kw)


PROPS = {
    "C01": conc([("conc", "kinds=lazy cls=get", 5), ("conc", "kinds=lazy dep=1 cls=get", 2), ("conc", "kinds=lazy native=1 cls=get", 1)],
                need={"builder_runs": 1000, "overlapping_ops": 1000}),
    "C02": conc([("conc", "kinds=lazy", 6), ("conc", "kinds=lazy native=1", 2)], need={"builder_runs": 1000, "overlapping_ops": 1000}),
    "C03": conc([("conc", "kinds=nonlazy", 6), ("conc", "kinds=nonlazy native=1", 2)], need={"overlapping_ops": 1000}),
    "C04": conc([("conc", "meet=1", 3), ("dup", "still=1 meet=1", 2), ("conc", "cls=guard", 2), ("conc", "native=1 cls=guard", 2)], need={"rendezvous_complete": 500, "reads_passing_held_guards": 500, "runs_with_guard_held_through": 500}),
    "C05": conc([("conc", "kinds=lazy fail=100", 6), ("conc", "kinds=lazy fail=100 native=1", 2)], need={"builder_failures": 1000}),
    "C06": asy([("asy", "", 3), ("asy", "fail=50", 2), ("asy", "meet=1", 1), ("asy", "native=1 fail=30", 2)],
               need={"builder_runs": 1000, "overlapping_ops": 1000, "rendezvous_complete": 500}),
    "C07": asy([("asy", "cancel=100", 4), ("asy", "cancel=80 fail=50", 2), ("asy", "native=1 cancel=80", 2)],
               need={"cancelled_unfinished_ops": 1000, "cancelled_builders": 200}),
    "C08": conc([("conc", "kinds=lazy dep=1", 2), ("dup", "conc=1", 2), ("dup", "still=1", 1), ("conc", "fail=30", 1), ("asy", "cancel=20 fail=20", 1), ("asy", "native=1", 1), ("alk", "", 1)],
                need={"concurrent_runs": 500, "lock_contentions": 1000}),
    "E01": seq([("dup", "", 3), ("dup", "conc=1", 3), ("dup", "still=1", 2), ("alk", "", 1)], rule=DUP_RULE, need={"clones": 1000, "equal_comparisons": 1000, "unequal_comparisons": 1000, "concurrent_runs": 500}),
    "S01": seq([("seq", "kinds=lazy", 6), ("asy", "solo=1 kinds=lazy fail=30", 2)], copies=3, need={"builder_runs": 2000, "ops": 50000}),
    "S02": seq([("seq", "kinds=opt", 6), ("asy", "solo=1 kinds=opt", 2)], copies=3, need={"ops": 50000}),
    "S03": seq([("seq", "kinds=val", 6), ("asy", "solo=1 kinds=val", 2)], copies=3, need={"ops": 50000}),
    "I01": seq([("seq", "init=1", 6), ("asy", "init=1", 2)], copies=3, need={"ops": 50000}),
    "B01": seq([("bld", "", 8)], copies=3, rule=BLD_RULE, need={"incomplete_attempts": 10000, "built": 10000}),
    "B02": seq([("bld", "post=1", 8)], copies=3, rule=BLD_RULE, need={"post_build_calls": 10000, "post_build_failures": 500, "incomplete_attempts": 5000}),
    "R01": seq([("rcs", "", 8)], copies=3, rule=RC_RULE, need={"objects_dropped": 5000, "thread_runs": 500, "self_handles_in_builders": 1000, "upgrades": 5000}),
    "D01": seq([("ser", "what=trip", 6), ("ser", "conc=1", 2)], copies=3, rule=SER_RULE, need={"round_trips": 5000, "lazies_built_for_serialization": 1000, "concurrent_serializations": 1000}),
    "D02": seq([("ser", "what=form", 8)], copies=3, rule=SER_RULE, need={"serializations": 5000, "accepted_inputs": 5000}),
    "D03": seq([("ser", "what=input", 8)], copies=3, rule=SER_RULE, need={"incomplete_inputs": 1000, "mutated_inputs": 1000, "rejected_inputs": 1000, "accepted_inputs": 5000}),
    "N01": vis(need={"expected": 1500, "not_expected": 10000}),
    "N02": vis(need={"expected": 4000, "not_expected": 500, "from_another_crate": 300}),
    "A01": vis(),
    "X01": dict(custom="mis", rounds=10,
                rule=("a run is a program the macro is executed with: one with a contradiction or an error of a known kind, one with compatible arguments, or one with arbitrary arguments (grammar-biased token soup); diagnostics are observed. "
                      "Non-trivial: always. Distinct by the text of the program"),
                technique="runtime monitoring: the macro is executed over generated programs, its diagnostics (or their absence) and panics are checked against predictions",
                note="Held for all pairs of 60 forms of struct arguments and 55 forms of field arguments, sampled larger sets, and arbitrary arguments. Type errors in the generated code are out of scope here.",
                need={"invalid_programs": 500, "valid_programs": 2000, "arbitrary_programs": 2000, "rejected": 500}),
    "M01": dict(custom="m01", evals=["miri_ops", "tsan_ops", "asan_ops", "auto_traits", "lifetime_programs"],
                rule=("an evaluation is an operation (accessor call, clone, comparison, serialization, spawn, drop of a future) made by a program in safe code which is executed by Miri, or instrumented by ThreadSanitizer, or AddressSanitizer. "
                      "Non-trivial: programs of 2-3 threads with up to 6-10 operations each over shared objects, or single-threaded ones where builders panic, fail, futures are dropped midway. Distinct by the seed of the program, and, with Miri, by the seed of the scheduler. A program also tells which types can be sent to and shared by threads, depending on values inside; and programs which use what is gone are given to the compiler, each is an evaluation"),
                technique="runtime monitoring: Miri with many seeds (undefined behaviour, data races with weak memory, leaks, deadlocks), ThreadSanitizer, AddressSanitizer with leak detection, plus self-checking values",
                note="Real parking_lot and tokio locks (futex pointer casts in a copy of parking_lot_core are changed since Miri rejects them). Scenarios are fixed; operations, faults and schedules are random.",
                need={"miri_ops": 500, "tsan_ops": 50000, "asan_ops": 50000, "miri_runs_async": 5, "miri_runs_sync": 5, "miri_runs_rc": 5, "miri_cancelled_ops": 5, "miri_builder_failures": 5, "miri_guard_meetings": 20, "auto_traits": 200, "lifetime_programs": 50}),
    "L01": seq([("cont", "", 5), ("conc", "cls=direct", 2), ("asy", "cls=direct", 1), ("alk", "", 1)], copies=1,
               rule=("a run is a pool of containers (locks by themselves, lazy proxies taken out of struct builders' products) going through a random sequence of operations: all methods and conversions, with builders which fail "
                     "or panic, owners of other containers, clones and comparisons; results, builder runs and their owners, and the number of living values are compared with models. Non-trivial: at least one operation. "
                     "Distinct by the kind of the container, operations and their results. And concurrent runs where containers of generated structs are used directly. " + CONC_RULE),
               note="Held on all sequences of operations and histories observed; models are trusted.",
               need={"ops": 200000, "comparisons": 20000, "builder_failures": 2000, "overlapping_ops": 2000}),
    "F01": dict(custom="feat", evals=["facts", "programs_lacking_features"],
                rule=("an evaluation is a fact told by a program built with a combination of features (behaviour of structs of each kind available, auto traits), or a program which needs a feature missing from the combination: its diagnostics are observed. "
                      "Non-trivial: always. Distinct by the combination and the fact, or the program"),
                technique="runtime monitoring: programs built with every combination of features tell facts compared with predictions; diagnostics of programs lacking features are observed",
                note="All 16 combinations of sync, async, serde, send_guard; some of them (all, in the thorough tier) also with diagnostics, by the nightly compiler.",
                need={"combinations": 19, "facts": 300, "programs_lacking_features": 100, "rejected": 100}),
    "H01": dict(custom="hyg", evals=["facts"],
                rule=("an evaluation is a fact told by a program (a value read, set, cleared, built, cloned, serialized by code using generated structs) in a scope where names mean other things than usual; facts are compared with "
                      "those told by the same program in a usual scope. Non-trivial: always. Distinct by the program, the scope, and the fact"),
                technique="runtime monitoring: differential execution of the same generated program in scopes which differ in what names mean; the compiler's diagnostics are observed too",
                note="Names of the prelude, of library and std types, traits, functions, modules and macros; a scope without any prelude. Names of methods brought by user's traits, and of type parameters are out of scope here.",
                need={"scopes": 12, "structs": 150, "facts": 3000}),
    "U01": seq([("auxp", "", 8)], crate="auxp", evals=["parses", "conversions"], assumptions=["sources are made of the grammar below; arguments are parsed outside of a compiler run (proc_macro2 fallback)"],
               rule=("an evaluation is an argument source made by the grammar of an argument type (documented forms, or documented forms with a known error) which is parsed by the type; what it holds, or its being rejected, is compared with what has been written; "
                     "or a conversion. Non-trivial: always. Distinct by the type and the source"),
               technique="runtime monitoring: parsers of argument types over generated sources with an online model-based oracle",
               note="Held for all sources generated. Sources where documentation says nothing are only checked for panics.",
               need={"accepted": 20000, "rejected": 20000, "conversions": 20000}),
    "G01": seq([("seq", "", 2), ("conc", "", 1), ("asy", "", 1), ("dup", "", 1), ("bld", "", 1), ("rcs", "", 1), ("ser", "what=trip nonull=1", 1)], gbase=500000,
               rule="All structs are generic where there is a field able to be of a parameter's type. " + SEQ_RULE + "; and the same for struct builders, reference counted, serializable, cloned, concurrently used ones",
               need={"ops": 50000, "built": 5000, "round_trips": 2000, "objects_dropped": 2000, "clones": 2000, "overlapping_ops": 2000}),
    "O01": seq([("seq", "", 4), ("conc", "", 2), ("conc", "fail=30", 1), ("conc", "native=1", 1)], rule=SEQ_RULE + "; and concurrent runs. " + CONC_RULE,
               assumptions=SEQ_ASSUME + CONC_ASSUME, need={"ops": 50000}),
}

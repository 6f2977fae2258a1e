#!/usr/bin/env python3
"""regenerates MANIFEST.json (run by hand)"""
import json
V = "deductive verification with Verus: contracts spliced onto the functions extracted from /repo's source on every run"
K = "Kani contract proofs on the real functions (finite instances, all inputs and all functions of a finite domain)"
B = "the same contracts run on concrete inputs (bounded)"
VB, VKB, KB = V + "; " + B, V + "; " + K + "; " + B, K + "; " + B
CH = {
 # id: (technique, what is not proved)
 "C01": (VB, "every function of pvec (nodes, tree, vector) has a contract against its element sequence, discharged with no bound; library contracts assumed (see trusted_base)"),
 "C02": (VB, "as C01"),
 "C03": (VB, "as C01; standard iterator adaptors are assumed to yield what the proved next() yields"),
 "C04": (VB, "equality, order and hash proved over the element sequence; persistence by the verifier's value semantics of &self and by bounded histories"),
 "C05": (VKB, "the instances of semigroup/monoid for wrappers, tuples, Option, String, Vec, HashMap, BTreeMap and HashSet (library maps through an assumed finite-map contract), the repeat/combine_all functions and the law lemmas over them"),
 "C06": (VKB, "Maybe, Either, Result, Option, Id, Box, the wrappers, Validated and Vec instances and their provided methods under contract; PureExt and the generic-over-P helpers (GAT) are bounded"),
 "C07": (VB, "every function of choice.rs except sum, formatting and quickcheck's arbitrary; those are bounded"),
 "C08": (VB, "every function of validated/core.rs (except error_buffer_mut, unwrap_owned, unwrap_invalid_owned) and of its trait instances; the rest is bounded"),
 "C09": (VKB, "Writer's functions and trait instances under contract, law lemmas; IntoIterator is bounded"),
 "C10": (VKB, "State and StateT under contract as relations between start state, result and end state, the error forms included; number and order of calls of user functions is bounded"),
 "C11": (VKB, "Reader and ReaderT under contract, the error forms included; three-fold compositions are bounded"),
 "C12": (VKB, "Cont and ContT under contract; order and number of effects is bounded"),
 "C13": (VKB, "IO under contract (values, laziness by construction); order and number of effects, panics, and the runtime-backed forms are bounded"),
 "C14": (VKB, "Lens, Prism, IsoLens, IsoPrism and the compositions under contract with the optics laws as lemmas"),
 "C15": (VKB, "conversions and isomorphisms under contract with round-trip lemmas; isomorphisms over user-supplied functions are assumed deterministic"),
 "C16": (VKB, "Predicate under contract with the boolean algebra laws as lemmas"),
 "C17": (VKB, "Foldable instances under contract for lists of any length; the HashMap-free part is complete, minimum/maximum helpers bounded where listed"),
 "C18": (VKB, "ComposableError, ErrorPipeline and the context helpers under contract"),
 "C19": (VKB, "evaluation, thunks and memoizer under contract; the memoizer's lock and map through an assumed contract (lock invariant), its schedules bounded"),
 "C20": (VKB, "composition of functions and containers and the category/arrow functions under contract with the laws as lemmas; what iterates library iterators is proved by Kani for finite instances"),
 "C21": (VKB, "sequence/traverse of Vec, the error utilities and the pipeline functions under contract; adaptors over library iterators are bounded"),
 "C22": (VKB, "alternatives and error handling of Maybe, Either, Result, Option, Choice, Validated under contract"),
 "C23": (V + " (await as a call; suspension points dropped); " + B + ": arbitrary programs under drawn schedules",
         "AsyncM's functions under contract as relations over the values their futures give; exactly-once, schedules, panics and the runtime-backed IO forms are bounded"),
 "C24": (V + " (lock invariant of the memoizer); " + B + ": real threads",
         "the memoizer's functions keep the lock invariant (every cached value is the function's) with the lock and map assumed; interleavings are bounded"),
}
NA = {}
ALL = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ALL:
    if i in CH:
        t, n = CH[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": t, "level": "proof", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)

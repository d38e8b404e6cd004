CLAIMED["C11"] = "TLA+ model-based testing: TLC enumerates every borrow state of Borrow.tla with a script reaching it; runs on the real crate are judged by TLC against Borrow.tla"
NOTES["C11"] = ("Every distinct set of live borrows within 2 operations and a sample (thorough: all) of those within 3, on a world of "
                "4 archetypes; in each, every guard, find, iteration and clone is tried. Trusts TLC and the harness's logging.")
NA.pop("C11", None)

CLAIMED["C14"] = "TLA+ model-based testing: TLC enumerates every conversion sequence of Handles.tla; runs on the real crate are judged by TLC against Handles.tla"
NOTES["C14"] = ("Exhaustive over conversion sequences of length 4 (thorough: 5) from 10 kinds of handles; raw values are boundary and "
                "random samples of the 2^64. Trusts TLC and the harness's logging.")
NA.pop("C14", None)

for _p, _t in (("C05", "queries"), ("C15", "ids"), ("C16", "cfg predicates")):
    CLAIMED[_p] = ("TLA+ model-based testing: TLC classifies generated declarations and queries (%s) with Decl.tla; rustc's verdicts and what "
                   "the programs show when run are judged by TLC against Decl.tla" % _t)
    NOTES[_p] = ("Bounded and sampled: generated declarations of up to 8 archetypes and 8 components, queries of up to 5 parameters, each of the "
                 "five macros. Trusts TLC, rustc's diagnostics and the generated programs' printing.")
    NA.pop(_p, None)

CLAIMED["C18"] = ("TLA+ model-based testing: TLC enumerates client programs from Loans.tla (an access-invalidation model of references) with the verdict each "
                  "must get; rustc's verdicts, auto traits and expansions are judged by TLC against Loans.tla")
NOTES["C18"] = ("59 ways to hold a reference and 19 closure parameters x 38 calls and x each other, with sound twins (quick: all unsound single-call programs and a "
                "sample of the rest); unsafe-freedom over the expansions of a generated corpus. Trusts TLC and rustc.")
NA.pop("C18", None)

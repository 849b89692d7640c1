def claims(MOCK, DFS):
    E2E = ("Every program of a bounded space is run through the real library and the real solver compiled/linked from the current tree; the observed results are compared with an independent brute force reference. "
           "Exhaustive within the stated bounds on the number of constraints, weights, relations and options; the solver's own choices are explored through configurations, not enumerated (the mock based checks enumerate them). Trusts libclingo and the reference semantics in /verif/src.")
    BOTH = MOCK + " A second job runs bounded sets of whole programs with the real solver and compares answers and values with brute force."
    T = {
        "C08": ("exhaustive enumeration of bounded programs under all option combinations of a table, executed by the implementation, answers and values compared with a brute force reference", E2E),
        "C09": ("stateless model checking: all distributions of bounded constraint sets over up to three steps, with literals fixed, assumptions toggled and threads changed between steps, and all decision histories of each step; whole programs with all external values per step", BOTH),
        "C11": (DFS + "; all clauses added during initialization are checked", MOCK),
        "C12": ("exhaustive enumeration of relations, forms, literal states and decision histories, accepted assignments compared with brute force; whole programs compared with brute force", BOTH),
        "C13": ("exhaustive enumeration of expression trees up to a size over operators, numbers and terms; the constraint the implementation reads is observed through answers and values and compared with reference arithmetic", E2E),
        "C14": ("exhaustive enumeration of malformed expression trees, operators, guards and constants around the limits of the number range; accepted or rejected as in the reference arithmetic", E2E),
        "C15": ("exhaustive enumeration of statements (heads, bodies, signs, pools, aggregates) up to a size; the rewritten syntax tree is compared with the expected statement and the input with its state before", E2E),
        "C16": ("exhaustive enumeration of bounded programs with constraints of all relations and signs, projected answers compared with brute force", E2E),
        "C17": ("exhaustive enumeration of sets of attainable values and of all sequences of models the solver can return (as decreasing subsequences), for each step factor and initial bound; runs of the real optimization compared with the minimum", E2E),
        "C18": ("exhaustive enumeration of option value strings over token alphabets and of sequences of settings through both interfaces; the effect on every thread is observed by exhaustive decision histories of probe graphs and compared with canonical settings of a reference grammar", MOCK),
        "C19": (DFS + "; the whole assignment interface is evaluated in every state", MOCK),
        "C20": (DFS + " and thread count sequences; statistics recomputed by the monitor after every step", MOCK),
        "C22": (DFS + " with real valued constraints; whole programs compared with brute force", BOTH),
        "C23": (DFS + " and step sequences; components recomputed by the monitor", MOCK),
        "C21": ("stateless model checking: all interleavings of all sequences of interface operations on two theory objects up to a bound, each compared with an object that is the only one of its process; the same with the two objects on two threads under a happens-before race detector that does not see the order of the operations", BOTH),
        "C26": ("exhaustive enumeration of legal interface call sequences up to a depth, executed by the implementation under address and undefined behavior sanitizers with leak detection, plus bounded solver histories under the sanitizers",
                "All call sequences over an alphabet of 20 operations up to a depth with the real solver, and exhaustive decision histories on small graphs with the stand-in solver, both instrumented with ASan and UBSan. Limits: use of several threads is not enumerated here (see C10); reads of uninitialized memory are seen only where they change results, as the sanitizers fill fresh memory."),
    }
    CLI = " A further job runs the command line application built from the current tree on exhaustively enumerated option values and programs."
    for p in ("C08", "C12", "C14", "C15", "C17", "C18", "C20"):
        if p in T: T[p] = (T[p][0], T[p][1] + CLI)
    return T

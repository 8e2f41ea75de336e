SQ = "bounded exhaustive enumeration of cases executed on the real code against a reference model"
SQN = ("Every case within the bounds given in DESIGN.md is executed on the real crates and compared with an independent reference "
       "model; a failing case is re-run on its own before it is reported. Trusts the reference model; nothing is claimed beyond the bounds.")
for _p in "C09 C10 C11 C12 C13 C14 C16 C17 C20 C23 C24 C28 C30".split():
    CLAIMED[_p] = (SQ, "model_checking", SQN)
for _p in "C15 C25 C27".split():
    CLAIMED[_p] = ("exhaustive enumeration of fault points and histories on the real code", "fault_enumeration", SQN)
DXN = ("A generator writes programs that use the derive macros (every combination within the bounds given in DESIGN.md) together with "
       "the results expected of them; all are compiled with the derive crate of the working tree and every value is executed. Trusts the generator's tables.")
for _p in "C07 C18 C19 C26".split():
    CLAIMED[_p] = ("exhaustive enumeration of generated derive programs and all their values, executed on the real code", "model_checking", DXN)
CLAIMED["C21"] = ("exhaustive enumeration of helper process states and histories, observed with the real collector", "model_checking",
    "Every state and history within the bounds given in DESIGN.md is brought about in a helper process and compared with what was done to it and with an independent reading of /proc. Nothing is claimed about other kernels or containers.")
CLAIMED["C22"] = ("exhaustive enumeration of runtime configurations and workload histories, scraped with the real collector at rest", "model_checking",
    "Every combination within the bounds given in DESIGN.md is built and scraped; the oracle is the runtimes' own metrics interface read before and after. Thread schedules inside tokio are not enumerated.")
CLAIMED["C29"] = ("exhaustive enumeration of programs wrong in one way, each given to the compiler with the real crates and derive macros", "model_checking",
    "Every program within the bounds given in DESIGN.md must be rejected by the compiler and every right counterpart accepted. Trusts the compiler; programs are compiled together as modules of one crate, and any that seems to be accepted is compiled again on its own.")
CLAIMED["C31"] = ("exhaustive enumeration of programs that differ in names and surroundings, each compiled with the real crates and derive macros and run", "model_checking",
    "Every program within the bounds given in DESIGN.md must compile and do exactly what it says; the names include every one that occurs in what the derives generate. Trusts the compiler; programs are compiled together as modules of one crate, failing ones again on their own.")

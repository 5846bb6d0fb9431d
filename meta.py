"""Per-property evidence notes."""
COMMON_ASSUMPTIONS = [
    "integer and real arithmetic of the verified code is treated as mathematical (no overflow, no rounding)",
    "CPython executes the instrumented functions with Python semantics; builtins obey their contracts in pyvc/models.py",
    "partial correctness: termination is not an obligation; no concurrent modification of the objects while a contracted function runs (except where schedules are modelled explicitly)",
]
ASSUMPTIONS = {
    "C01": ["learners, finishers, executors and inverters of a node are arbitrary functions that do not touch the life-cycle fields"],
}
LEVEL = {}
EXTRA = {}
NOT_APPLICABLE = {}
DEFAULT_TECHNIQUE = ("contract-based deductive verification of the real Python source: verification conditions generated "
                     "function by function (loop invariants, ghost call traces), discharged by z3/cvc5")
TECHNIQUE = {}
DEFAULT_NOTE = ("Every obligation generated from /repo's current source is discharged for all inputs within the contracts' preconditions; "
                "trusted: the instrumentation, the models of builtins/numpy listed in the evidence. Parts outside reach are covered by a "
                "bounded concrete run of the same contracts, labelled bounded.")
NOTE = {}

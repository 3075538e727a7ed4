SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Procs = {p1, p2, p3}
  Names = {n1}
  Cks = {"yes", "has"}
  Hold = FALSE
  MaxCalls = 2
INVARIANT Exclusion
INVARIANT Linearizable
INVARIANT Agree
INVARIANT NotStuck
PROPERTY Returns

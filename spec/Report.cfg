SPECIFICATION Spec
CONSTANTS
 File = "traces.json"
INVARIANTS Complete Verdict
PROPERTIES Forward
CHECK_DEADLOCK FALSE

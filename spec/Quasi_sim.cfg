SPECIFICATION Spec
CONSTANTS
 MAXB = 2
 KINDS = {"patch", "bar", "layers", "free"}
INVARIANTS Balanced OnSolution Held Outputs EmitInv

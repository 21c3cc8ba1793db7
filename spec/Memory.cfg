SPECIFICATION Spec
CONSTANTS
  Cells = {1, 2, 3, 4, 5, 6}
  MaxBlocks = 3
INVARIANTS KnownIsHeld BlocksApart AccessHeld DecidesByKnown GivenBack Fresh
CHECK_DEADLOCK FALSE

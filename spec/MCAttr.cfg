SPECIFICATION Spec
CONSTANTS
  Samples <- c_Samples
  Sel <- One
  Sizes <- c_Sizes
  Fill <- c_Fill
  Extras <- c_Extras
  Avail <- c_Avail
  MaxAttrs = 3
  PrintIt = TRUE
INVARIANTS RightOutcome RightError RightMembers RightSize RightConf Scenario
CHECK_DEADLOCK FALSE

\* sequences of two
SPECIFICATION Spec
CONSTANTS
  Samples = {0}
  Sel <- All
  Sizes <- y_Sizes
  Fill <- y_Fill
  Extras <- x_Extras
  Avail <- x_Avail
  MaxAttrs = 2
  PrintIt = FALSE
INVARIANTS RightOutcome RightError RightMembers RightSize RightConf
CHECK_DEADLOCK FALSE

\* every declared size 0..160, 200, 256, 4096; each member alone, all, none; both orders; cut by one byte or not
SPECIFICATION Spec
CONSTANTS
  Samples = {0}
  Sel <- All
  Sizes <- x_Sizes
  Fill <- x_Fill
  Extras <- x_Extras
  Avail <- x_Avail
  MaxAttrs = 1
  PrintIt = FALSE
INVARIANTS RightOutcome RightError RightMembers RightSize RightConf
CHECK_DEADLOCK FALSE

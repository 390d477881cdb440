\* every script of four steps on groups of up to three counters
SPECIFICATION Spec
CONSTANTS
  Samples = {0}
  Sel <- All
  Formats <- g_FewFormats
  Sizes <- x_Sizes
  Values <- x_Values
  Steps <- x_Steps
  MaxSteps = 4
  PrintIt = FALSE
INVARIANTS SameAnswer SameLeft RoundTrip Lookup
CHECK_DEADLOCK FALSE

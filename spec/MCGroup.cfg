\* sampled
SPECIFICATION Spec
CONSTANTS
  Samples <- g_Samples
  Sel <- One
  Formats <- g_Formats
  Sizes <- g_Sizes
  Values <- g_Values
  Steps <- g_Steps
  MaxSteps = 9
  PrintIt = TRUE
INVARIANTS SameAnswer SameLeft RoundTrip Lookup Scenarios
CHECK_DEADLOCK FALSE

\* sampled
SPECIFICATION Spec
CONSTANTS
  Samples <- c_Samples
  Sel <- One
  Inputs <- c_Inputs
  Deliveries <- c_Deliveries
  Ops <- c_Ops
  MaxOps = 8
  RefOf <- c_Ref
  PrintIt = TRUE
INVARIANTS OneCursor InBounds ValueIsInput NoDataAtFault NeverInvalid Scenarios
PROPERTY CloneApart
CHECK_DEADLOCK FALSE

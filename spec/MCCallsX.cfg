\* every sequence of two calls on every tiny input, delivered in every way
SPECIFICATION Spec
CONSTANTS
  Samples = {0}
  Sel <- All
  Inputs <- x_Inputs
  Deliveries <- x_Deliveries
  Ops <- x_Ops
  MaxOps = 2
  RefOf <- NoRef
  PrintIt = FALSE
INVARIANTS OneCursor InBounds ValueIsInput NoDataAtFault NeverInvalid
PROPERTY CloneApart
CHECK_DEADLOCK FALSE

\* every source of up to 4 bytes, every sequence of 3 calls, one of the sizes a claim that nothing backs
SPECIFICATION Spec
CONSTANTS
  Total = 4
  Sizes = {0, 1, 3, 40}
  Reserve = 2
  MaxCalls = 3
INVARIANTS Contract NoPanic RightBytes HandOver NoOverAsk FrameLeft MemoryBound
PROPERTIES Returns Refines
CHECK_DEADLOCK FALSE

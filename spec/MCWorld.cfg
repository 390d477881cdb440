SPECIFICATION Spec
CONSTANTS
  MaxRecs <- w_MaxRecs
  Seeds <- w_Seeds
  Types <- w_Types
  Miscs <- w_Miscs
  Damages <- w_Damages
  Ents <- w_Ents
  Deliveries <- w_Del
  Emit = FALSE
  Samples <- w_Samples
  Sel <- One
  ConfSteps <- w_Steps
  ConfChoices <- w_Choices
  Ways <- w_Ways
INVARIANTS InSync AfterHdr EndsRight FaultStops RightValue BodyBytes CutFails Nested Scenarios
CHECK_DEADLOCK FALSE

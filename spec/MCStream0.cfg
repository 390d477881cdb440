\* empty lists and zero words
SPECIFICATION Spec
CONSTANTS
  MaxRecs = 1
  Seeds <- mc_Seeds0
  Types <- mc_Types
  Miscs <- mc_Miscs
  Damages <- mc_Damages
  Ents <- mc_Ents
  Deliveries <- mc_Del
  Emit = FALSE
  Samples = {0}
  Sel <- All
  ConfSteps = 1
  ConfChoices <- mc_ChoicesSmall
  Ways = {"rec", "vis", "one", "mmap", "meta", "hdr"}
INVARIANTS InSync AfterHdr EndsRight FaultStops RightValue BodyBytes CutFails Nested
CHECK_DEADLOCK FALSE

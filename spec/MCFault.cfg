\* sources that fail at every offset
SPECIFICATION Spec
CONSTANTS
  MaxRecs = 1
  Seeds <- mc_Seed
  Types <- mc_FewTypes
  Miscs <- mc_Miscs
  Damages <- mc_None
  Ents <- mc_Ents
  Deliveries <- mc_DelF
  Emit = FALSE
  Samples = {0}
  Sel <- All
  ConfSteps = 1
  ConfChoices <- mc_ChoicesSmall
  Ways = {"rec", "vis", "meta", "hdr"}
INVARIANTS InSync AfterHdr EndsRight FaultStops RightValue BodyBytes CutFails Nested
CHECK_DEADLOCK FALSE

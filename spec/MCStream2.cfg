\* streams of two records
SPECIFICATION Spec
CONSTANTS
  MaxRecs = 2
  Seeds <- mc_Seed
  Types <- mc_FewTypes
  Miscs <- mc_Miscs
  Damages <- mc_Damages
  Ents <- mc_Ents
  Deliveries <- mc_Del
  Emit = FALSE
  Samples = {0}
  Sel <- All
  ConfSteps = 1
  ConfChoices <- mc_ChoicesSmall
  Ways = {"rec", "vis", "meta"}
INVARIANTS InSync AfterHdr EndsRight FaultStops RightValue BodyBytes CutFails Nested
PROPERTY Finishes_
CHECK_DEADLOCK FALSE

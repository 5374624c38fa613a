SPECIFICATION TraceSpec
INVARIANT Conforms
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
CONSTANTS
  NS = 8
  NE = 8
  NT = 6
  NM = 4
  ND = 8
  NF = 8
  NB = 4
  Owned = {"e_add", "e_mul"}
  OwnPanics = FALSE
CONSTANTS
  P <- cP
  D <- cD
  L <- cL
  FB <- cFB
  SGN <- cSGN
  SB <- cSB
  GX <- cGX
  GY <- cGY
  SMD <- cSMD

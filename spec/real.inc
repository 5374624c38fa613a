CONSTANTS
  P <- cP
  D <- cD
  L <- cL
  FB <- cFB
  SGN <- cSGN
  SB <- cSB
  GX <- cGX
  GY <- cGY
  SMD <- cSMD

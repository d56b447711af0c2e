SPECIFICATION Spec
CONSTANTS
 Crds <- MCCrds
 Pts <- MCPts
 Ints <- MCInts
 Steps <- MCSteps
INVARIANT TypeOK ClosedInterval Duality InteriorHolds HalfOpen
ACTION_CONSTRAINT Emit

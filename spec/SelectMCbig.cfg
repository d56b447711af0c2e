SPECIFICATION Spec
CONSTANTS
 Crds <- MCCrdsBig
 Pts <- MCPtsBig
 Ints <- MCIntsBig
 Steps <- MCSteps
INVARIANT TypeOK ClosedInterval Duality InteriorHolds HalfOpen
ACTION_CONSTRAINT Emit

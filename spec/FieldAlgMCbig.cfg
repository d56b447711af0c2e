SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3}
INVARIANT Commutes ByComp ScalarOnEach Rejoin Total InSteps KeepDrop Transposed LastRunning Means BothStored

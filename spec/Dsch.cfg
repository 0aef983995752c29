SPECIFICATION Spec
CONSTRAINT Bound
INVARIANT PropertiesHold
CHECK_DEADLOCK FALSE
CONSTANT Strict <- StrictScenario

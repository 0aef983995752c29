SPECIFICATION Spec
VIEW StateView
CHECK_DEADLOCK FALSE
CONSTANT Strict <- StrictBatch

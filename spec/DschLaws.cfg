SPECIFICATION Spec
INVARIANT LawsHold
CHECK_DEADLOCK FALSE
CONSTANT Strict <- NotStrict

CONSTANTS NSlots = 3
NObj = 4
MaxCalls = 2
SPECIFICATION Spec
INVARIANTS Refines NoLeak Owned CopiesAgree
PROPERTY Independent
CHECK_DEADLOCK FALSE

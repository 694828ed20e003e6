CONSTANTS Ranks = 3
Names = {"a", "b", "c"}
NSlots = 2
MaxBegun = 1
SPECIFICATION Spec
INVARIANTS Once Belongs Sane Steiner
CHECK_DEADLOCK FALSE

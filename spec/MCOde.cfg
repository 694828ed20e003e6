SPECIFICATION Spec
INVARIANTS Complete Failed Bounded Honest
CHECK_DEADLOCK FALSE

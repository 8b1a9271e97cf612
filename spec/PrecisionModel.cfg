SPECIFICATION Spec
INVARIANTS SingleIsFaithful FaithfulDouble NeverFinerThanObject
CHECK_DEADLOCK FALSE

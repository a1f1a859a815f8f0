SPECIFICATION Spec
INVARIANTS Good SelfStanding SameIffSame CanonAdmissible BadsBad
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT K = 8
INVARIANT Safe

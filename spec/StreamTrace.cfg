SPECIFICATION Spec
INVARIANT Safe

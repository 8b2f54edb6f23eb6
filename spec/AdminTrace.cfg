SPECIFICATION Spec
INVARIANT OneHolder

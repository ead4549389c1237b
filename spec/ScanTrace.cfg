SPECIFICATION Spec
INVARIANT InBounds

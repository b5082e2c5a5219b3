SPECIFICATION Spec
INVARIANT Is24
INVARIANT Is16
INVARIANT SameLayouts
INVARIANT FullScale
CHECK_DEADLOCK FALSE

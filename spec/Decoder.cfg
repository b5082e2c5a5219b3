SPECIFICATION Spec
INVARIANT BurstsRestart
INVARIANT HistoryOk
INVARIANT FilterOk
INVARIANT Emit
PROPERTY Fading
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Size = 3
 MaxTotal = 5
 MaxOp = 4
 Variant = "ok"
 WithClose = TRUE
INVARIANTS Fifo QuietOK
PROPERTIES RingStep
CHECK_DEADLOCK FALSE

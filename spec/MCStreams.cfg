SPECIFICATION Spec
INVARIANTS Integrity LiveOrder LabelsStick Counts
CONSTANTS MaxBytes = 2 MaxEdits = 1
CHECK_DEADLOCK FALSE

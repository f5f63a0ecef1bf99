SPECIFICATION Spec
CONSTANTS MaxItems = 4
 Mutate = FALSE
INVARIANTS CutReplayIsError WholeFileReads
PROPERTY Terminates
CHECK_DEADLOCK FALSE

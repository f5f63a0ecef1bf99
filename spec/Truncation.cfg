SPECIFICATION Spec
CONSTANTS MaxItems = 3
 Mutate = FALSE
INVARIANTS CutReplayIsError WholeFileReads
PROPERTY Terminates
CHECK_DEADLOCK FALSE

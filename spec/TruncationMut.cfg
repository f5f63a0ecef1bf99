SPECIFICATION Spec
CONSTANTS MaxItems = 2
 Mutate = TRUE
INVARIANTS CutReplayIsError WholeFileReads
PROPERTY Terminates
CHECK_DEADLOCK FALSE

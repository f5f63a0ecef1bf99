SPECIFICATION Spec
CONSTANTS DEPTH = 5
 EXPL = {100, 101, 3}
 Mutate = FALSE
INVARIANTS Good Fresh Unique
VIEW View
CHECK_DEADLOCK FALSE

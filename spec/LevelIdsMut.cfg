SPECIFICATION Spec
CONSTANTS DEPTH = 3
 EXPL = {100, 101, 3}
 Mutate = TRUE
INVARIANTS Good Fresh Unique
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS CENTER = {0, 1, 14, 18}
 AROUND = {99, 0, 2, 9, 12, 17, 20}
 LOOKS = {0, 1}
 FILTH = {1, 2}
 Mutate = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Tags = {1, 2, 4, 7, 11}
NumN = 4
MaxEls = 6
Groups = {1, 2, 3}
Emit = TRUE
INVARIANTS RoundTrip OwnNodes Out
CHECK_DEADLOCK FALSE

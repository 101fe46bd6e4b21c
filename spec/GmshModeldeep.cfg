SPECIFICATION Spec
CONSTANTS Tags = {1, 2, 3, 4}
NumN = 4
MaxEls = 2
Groups = {1, 2}
Emit = FALSE
INVARIANTS RoundTrip OwnNodes
CHECK_DEADLOCK FALSE

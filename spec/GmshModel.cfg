SPECIFICATION Spec
CONSTANTS Tags = {1, 2, 5}
NumN = 3
MaxEls = 2
Groups = {1, 2}
Emit = FALSE
INVARIANTS RoundTrip OwnNodes
CHECK_DEADLOCK FALSE

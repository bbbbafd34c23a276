SPECIFICATION Spec
CONSTANTS
 Names = {}
 Pieces <- PiecesIn
 MaxPieces = 2
INVARIANTS CaseLess Inclusion Tight OneMember Whole ListFine Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Pieces <- PiecesIn
 MaxPieces = 2
INVARIANTS RoundTrip NoMarkup ShownWhole BenignSame OnceOnly Spans RawMatters Emit
CHECK_DEADLOCK FALSE

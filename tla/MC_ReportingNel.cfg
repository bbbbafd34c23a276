SPECIFICATION Spec
CONSTANTS
 MaxJson = 0
 Part = "nel"
INVARIANTS RoundTrip Whole Within Lines Configured Faultless MembersApart Order OneConfigured Apart FractionOf Emit
CHECK_DEADLOCK FALSE

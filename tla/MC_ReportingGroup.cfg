SPECIFICATION Spec
CONSTANTS
 MaxJson = 0
 Part = "group"
INVARIANTS RoundTrip Whole Within Lines Configured Faultless MembersApart Order OneConfigured Apart FractionOf Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxJson = 3
 Part = "json"
INVARIANTS RoundTrip Whole Within Lines Configured Faultless MembersApart Order OneConfigured Apart FractionOf Emit
CHECK_DEADLOCK FALSE

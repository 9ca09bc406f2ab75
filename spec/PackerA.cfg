CONSTANTS R = 4
 Types <- TypesA
 MaxWidth = 2
 MaxItems = 2
SPECIFICATION Spec
INVARIANTS CodeFits Compact RoundTrip Aligned
CHECK_DEADLOCK FALSE

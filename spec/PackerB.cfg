CONSTANTS R = 2
 Types <- TypesB
 MaxWidth = 4
 MaxItems = 2
SPECIFICATION Spec
INVARIANTS CodeFits Compact RoundTrip Aligned
CHECK_DEADLOCK FALSE

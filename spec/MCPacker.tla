------------------------------ MODULE MCPacker ------------------------------
EXTENDS Packer
TypesA == {[name |-> "u1", width |-> 1, signed |-> FALSE, raw |-> FALSE], [name |-> "s2", width |-> 2, signed |-> TRUE, raw |-> FALSE],
           [name |-> "u2", width |-> 2, signed |-> FALSE, raw |-> FALSE], [name |-> "f2", width |-> 2, signed |-> FALSE, raw |-> TRUE],
           [name |-> "s1", width |-> 1, signed |-> TRUE, raw |-> FALSE]}
TypesB == {[name |-> "s4", width |-> 4, signed |-> TRUE, raw |-> FALSE], [name |-> "u4", width |-> 4, signed |-> FALSE, raw |-> FALSE],
           [name |-> "s2", width |-> 2, signed |-> TRUE, raw |-> FALSE], [name |-> "e8", width |-> 8, signed |-> FALSE, raw |-> TRUE]}
=============================================================================

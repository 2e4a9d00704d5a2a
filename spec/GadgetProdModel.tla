-------------------------- MODULE GadgetProdModel --------------------------
EXTENDS GadgetProd
V1 == {0, 1, 7, 8, 15}
VQuick == {0, 7, 8}
NoiseSet == {-1, 0, 1}
MsgSet == {[i \in 0..(N - 1) |-> 0], [i \in 0..(N - 1) |-> IF i = 0 THEN 1 ELSE 0],
           [i \in 0..(N - 1) |-> IF i = N - 1 THEN -1 ELSE 0], [i \in 0..(N - 1) |-> IF i = 0 THEN 1 ELSE 2]}
VDeep == 0..31
MsgSmall == {[i \in 0..(N - 1) |-> 0], [i \in 0..(N - 1) |-> IF i = 0 THEN 1 ELSE 0], [i \in 0..(N - 1) |-> IF i = 0 THEN 1 ELSE 2]}
=============================================================================

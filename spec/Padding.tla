------------------------------ MODULE Padding ------------------------------
(* The meaning of the pads and auto_pad attributes: how many elements are    *)
(* added at the begin and at the end of each spatial axis.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values,     \* numbers tried in a pads list
          Dims,       \* numbers of spatial axes
          Negative    \* whether lists with a negative number are tried

VARIABLES nd, pads
vars == <<nd, pads>>

\* ONNX lists all begins, then all ends.
Begin(p, a) == p[a]
End(p, a)   == p[a + Len(p) \div 2]
Axes(p)     == 1..(Len(p) \div 2)
Edges(p)    == [a \in Axes(p) |-> <<Begin(p, a), End(p, a)>>]

Refused(p)   == \E i \in DOMAIN p : p[i] < 0
NoPadding(p) == \A i \in DOMAIN p : p[i] = 0
Symmetric(p) == \A a \in Axes(p) : Begin(p, a) = End(p, a)

\* An attribute list is built one number at a time; at most one number is negative, the others then are 1.
Init == nd \in Dims /\ pads = <<>>
Neg(p) == \E i \in DOMAIN p : p[i] < 0
AddPad == /\ Len(pads) < 2 * nd
          /\ \E x \in Values \cup (IF Negative THEN {-1, -7} ELSE {}) :
               /\ Neg(pads) => x = 1
               /\ x < 0 => \A i \in DOMAIN pads : pads[i] = 1
               /\ pads' = Append(pads, x)
          /\ nd' = nd
          /\ (Len(pads') = 2 * nd) =>
               PrintT("@@" \o ToJson([dims |-> nd, pads |-> pads', refused |-> Refused(pads'), none |-> NoPadding(pads'),
                                      symmetric |-> Symmetric(pads'), edges |-> Edges(pads')]))
Next == AddPad

Complete == Len(pads) = 2 * nd
Consistent == Complete =>
    /\ NoPadding(pads) => Symmetric(pads)
    /\ Symmetric(pads) = (SubSeq(pads, 1, nd) = SubSeq(pads, nd + 1, 2 * nd))
=============================================================================

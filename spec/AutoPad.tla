------------------------------ MODULE AutoPad ------------------------------
(* auto_pad: which strings name a mode, and the padding a mode stands for on *)
(* one spatial axis, given the geometry of that axis.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxIn, MaxKernel, MaxStride, MaxDilation

Modes == {"NOTSET", "SAME_UPPER", "SAME_LOWER", "VALID"}
NotModes == {"", "SAME", "same_upper", "SAME_UPPER ", " VALID", "Valid", "NOT_SET", "SAME_LOWER\n", "VALI", "VALIDD", "EXPLICIT",
             "SAME-UPPER", "SAME_UPPE", "NOTSE", "UPPER", "LOWER", "INVALID"}

VARIABLES mode, in, k, s, d, done
vars == <<mode, in, k, s, d, done>>

Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* One axis: x elements, kernel kk, stride ss, dilation dd.
Extent(kk, dd) == (kk - 1) * dd + 1
SameTotal(x, kk, ss, dd) == Max(0, (CeilDiv(x, ss) - 1) * ss + Extent(kk, dd) - x)
AutoEdges(m, x, kk, ss, dd) ==
    LET t == SameTotal(x, kk, ss, dd)
    IN CASE m = "SAME_UPPER" -> <<t \div 2, t - t \div 2>>
         [] m = "SAME_LOWER" -> <<t - t \div 2, t \div 2>>
         [] OTHER            -> <<0, 0>>
\* Number of positions of the kernel.
OutSize(x, e, kk, ss, dd) ==
    LET w == x + e[1] + e[2] - Extent(kk, dd)
    IN IF w < 0 THEN 0 ELSE w \div ss + 1

Init == /\ mode \in {"SAME_UPPER", "SAME_LOWER", "VALID"}
        /\ in \in 1..MaxIn /\ k \in 1..MaxKernel /\ s \in 1..MaxStride /\ d \in 1..MaxDilation
        /\ done = FALSE
E0 == AutoEdges(mode, in, k, s, d)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<mode, in, k, s, d>>
        /\ PrintT("@@" \o ToJson([mode |-> mode, in |-> in, k |-> k, s |-> s, d |-> d, edges |-> E0, out |-> OutSize(in, E0, k, s, d)]))

\* SAME keeps ceil(in / stride) positions, with the smallest total that does so (unless none is needed),
\* and puts the odd element at the end (upper) or the beginning (lower).
SameKeeps == mode # "VALID" =>
    /\ OutSize(in, E0, k, s, d) >= CeilDiv(in, s)
    /\ SameTotal(in, k, s, d) > 0 => OutSize(in, E0, k, s, d) = CeilDiv(in, s)
    /\ SameTotal(in, k, s, d) > 0 => OutSize(in, <<0, SameTotal(in, k, s, d) - 1>>, k, s, d) < CeilDiv(in, s)
    /\ IF mode = "SAME_UPPER" THEN E0[2] - E0[1] \in {0, 1} ELSE E0[1] - E0[2] \in {0, 1}
=============================================================================

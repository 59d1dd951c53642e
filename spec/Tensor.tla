------------------------------- MODULE Tensor -------------------------------
(* Tensors: element type, shape, elements in row-major order.                  *)
EXTENDS Num, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(s, j) == IF j > Len(s) THEN 1 ELSE s[j] * ProdFrom(s, j + 1)
Size(s) == ProdFrom(s, 1)
Strides(s) == [j \in 1..Len(s) |-> ProdFrom(s, j + 1)]
Unflat(s, st, k) == [j \in 1..Len(s) |-> (k \div st[j]) % s[j]]
RECURSIVE Dot(_, _, _)
Dot(a, b, j) == IF j > Len(a) THEN 0 ELSE (a[j] * b[j]) + Dot(a, b, j + 1)
Flat(s, ix) == Dot(ix, Strides(s), 1)

\* A tensor from its shape and a function of the index.
MkT(t, s, f(_)) == LET n == Size(s)
                       st == TLCEval(Strides(s))
                   IN [t |-> t, s |-> s, v |-> IF n = 0 THEN <<>> ELSE TLCEval([k \in 1..n |-> f(TLCEval(Unflat(s, st, k - 1)))])]
\* A tensor from its shape and a function of the position.
MkF(t, s, f(_)) == LET n == Size(s) IN [t |-> t, s |-> s, v |-> IF n = 0 THEN <<>> ELSE TLCEval([k \in 1..n |-> f(k)])]
T(t, s, v) == [t |-> t, s |-> s, v |-> v]
At(x, ix) == x.v[1 + Flat(x.s, ix)]
Ints(x) == [k \in 1..Len(x.v) |-> x.v[k].n]
Vec(t, ns) == T(t, <<Len(ns)>>, [k \in 1..Len(ns) |-> I(ns[k])])
IVec(ns) == Vec("I64", ns)
Scal(t, e) == T(t, <<>>, <<e>>)
IScal(n) == Scal("I64", I(n))
Map(t, x, f(_)) == MkF(t, x.s, LAMBDA k : f(x.v[k]))
Absent == [t |-> "none", s |-> <<>>, v |-> <<>>]
Here(x) == x.t # "none"
IsFloat(t) == t \in {"F32", "F64", "F16"}
Exact(x) == \A k \in DOMAIN x.v : Fits(x.v[k])

Rank(x) == Len(x.s)
Axis(a, r) == IF a < 0 THEN a + r + 1 ELSE a + 1     \* 1-based
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Rep(x, n) == [k \in 1..n |-> x]
Iota(n) == [k \in 1..n |-> k]
Put(s, k, x) == [s EXCEPT ![k] = x]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Insert(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
RECURSIVE FoldS(_, _, _)
FoldS(f(_, _), b, s) == IF s = <<>> THEN b ELSE FoldS(f, f(b, Head(s)), Tail(s))
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN Zero ELSE IF n = 1 THEN f(1) ELSE Add(SumTo(f, n - 1), f(n))
SumSeq(es) == FoldS(Add, Zero, es)
SumI(ns) == FoldS(LAMBDA a, b : a + b, 0, ns)

\* Broadcasting.
PadS(s, r) == Rep(1, r - Len(s)) \o s
BShape(a, b) == LET r == MaxI(Len(a), Len(b))
                    p == PadS(a, r)
                    q == PadS(b, r)
                IN [k \in 1..r |-> IF p[k] = 1 THEN q[k] ELSE p[k]]
BOk(a, b) == LET r == MaxI(Len(a), Len(b))
                 p == PadS(a, r)
                 q == PadS(b, r)
             IN \A k \in 1..r : p[k] = q[k] \/ p[k] = 1 \/ q[k] = 1
BAt(x, ix) == LET d == Len(ix) - Len(x.s)
              IN At(x, [j \in 1..Len(x.s) |-> IF x.s[j] = 1 THEN 0 ELSE ix[d + j]])
Bin(t, x, y, f(_, _)) == LET s == BShape(x.s, y.s)
                         IN IF x.s = y.s THEN MkF(t, s, LAMBDA k : f(x.v[k], y.v[k]))
                            ELSE MkT(t, s, LAMBDA ix : f(BAt(x, ix), BAt(y, ix)))
Expand(x, s) == LET u == BShape(x.s, s) IN MkT(x.t, u, LAMBDA ix : BAt(x, ix))
Reshape(x, s) == T(x.t, s, x.v)
Transpose(x, p) == MkT(x.t, [j \in 1..Len(p) |-> x.s[p[j] + 1]],
                       LAMBDA ix : At(x, [j \in 1..Len(p) |-> ix[CHOOSE i \in 1..Len(p) : p[i] + 1 = j]]))
\* The elements along axis a at ix.
Along(x, a, ix) == [k \in 1..x.s[a] |-> At(x, Put(ix, a, k - 1))]
==============================================================================

--------------------------------- MODULE Num ---------------------------------
(* Tensor elements. An element is an exact rational ("q"), or a term ("f") over  *)
(* elements when its value is not rational or does not fit; terms are evaluated  *)
(* by the checks in double precision. Booleans are 0 and 1.                      *)
EXTENDS Integers, Sequences, TLC

Q0(n, d) == [k |-> "q", n |-> n, d |-> d]
F(f, a) == [k |-> "f", f |-> f, a |-> a]
I(n) == Q0(n, 1)
Lit(s) == F("lit", <<s>>)     \* a decimal literal, "inf", "nan", ...
Half == Q0(1, 2)
Zero == I(0)
One == I(1)
B(b) == IF b THEN One ELSE Zero

Abs0(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* n/d in lowest terms; d # 0
Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(Abs0(n), Abs0(d))
           IN Q0((s * n) \div g, (s * d) \div g)

IsQ(x) == x.k = "q"
Fits(x) == x.k = "q" /\ x.n < 30000 /\ x.n > -30000 /\ x.d < 30000

Neg(x) == IF IsQ(x) THEN Q0(-x.n, x.d) ELSE F("neg", <<x>>)
Add(x, y) == IF Fits(x) /\ Fits(y) THEN (IF x.d = 1 /\ y.d = 1 THEN I(x.n + y.n) ELSE Q((x.n * y.d) + (y.n * x.d), x.d * y.d))
             ELSE F("add", <<x, y>>)
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF Fits(x) /\ Fits(y) THEN (IF x.d = 1 /\ y.d = 1 THEN I(x.n * y.n) ELSE Q(x.n * y.n, x.d * y.d)) ELSE F("mul", <<x, y>>)
\* Division of floating-point elements.
Div(x, y) == IF Fits(x) /\ Fits(y) THEN (IF y.n # 0 THEN Q(x.n * y.d, x.d * y.n)
                                         ELSE IF x.n = 0 THEN Lit("nan") ELSE IF x.n > 0 THEN Lit("inf") ELSE Lit("-inf"))
             ELSE F("div", <<x, y>>)
\* Comparison of exact elements.
Lt(x, y) == IF x.d = y.d THEN x.n < y.n ELSE x.n * y.d < y.n * x.d
Eq(x, y) == x.n = y.n /\ x.d = y.d
Le(x, y) == Lt(x, y) \/ Eq(x, y)
CanCmp(x, y) == Fits(x) /\ Fits(y)
\* Choice by the sign of an element; also for terms.
IfPos(x, a, b) == IF IsQ(x) THEN (IF x.n > 0 THEN a ELSE b) ELSE F("ifpos", <<x, a, b>>)
IfNeg(x, a, b) == IF IsQ(x) THEN (IF x.n < 0 THEN a ELSE b) ELSE F("ifneg", <<x, a, b>>)
Max(x, y) == IF CanCmp(x, y) THEN (IF Lt(x, y) THEN y ELSE x) ELSE F("max", <<x, y>>)
Min(x, y) == IF CanCmp(x, y) THEN (IF Lt(x, y) THEN x ELSE y) ELSE F("min", <<x, y>>)
AbsE(x) == IF IsQ(x) THEN Q0(Abs0(x.n), x.d) ELSE F("abs", <<x>>)
SignE(x) == IF IsQ(x) THEN I(IF x.n > 0 THEN 1 ELSE IF x.n < 0 THEN -1 ELSE 0) ELSE F("sign", <<x>>)

FloorI(x) == x.n \div x.d            \* TLC's \div rounds towards minus infinity
CeilI(x) == -((-x.n) \div x.d)
TruncI(x) == IF x.n >= 0 THEN x.n \div x.d ELSE -((-x.n) \div x.d)
\* Round to nearest, ties to even.
RoundI(x) == LET f == FloorI(x)
                 r == 2 * (x.n - (f * x.d))
             IN IF r < x.d THEN f ELSE IF r > x.d THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
FloorE(x) == IF IsQ(x) THEN I(FloorI(x)) ELSE F("floor", <<x>>)
CeilE(x) == IF IsQ(x) THEN I(CeilI(x)) ELSE F("ceil", <<x>>)
RoundE(x) == IF IsQ(x) THEN I(RoundI(x)) ELSE F("round", <<x>>)
TruncE(x) == IF IsQ(x) THEN I(TruncI(x)) ELSE F("trunc", <<x>>)
\* Integer division truncates towards zero.
IDiv(x, y) == IF (x.n >= 0) = (y.n > 0) THEN I(Abs0(x.n) \div Abs0(y.n)) ELSE I(-(Abs0(x.n) \div Abs0(y.n)))
\* fmod = 0: the sign of the divisor; fmod = 1: the sign of the dividend.
ModE(x, y) == Sub(x, Mul(y, FloorE(Div(x, y))))
FmodE(x, y) == Sub(x, Mul(y, TruncE(Div(x, y))))

RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN One ELSE Mul(x, IPow(x, n - 1))
Pow(x, y) == IF IsQ(y) /\ y.d = 1 /\ y.n >= 0 /\ y.n <= 6 /\ IsQ(x) THEN IPow(x, y.n) ELSE F("pow", <<x, y>>)
Exp(x) == IF IsQ(x) /\ x.n = 0 THEN One ELSE F("exp", <<x>>)
Sqrt(x) == F("sqrt", <<x>>)
Log(x) == F("log", <<x>>)

\* Bits of non-negative integers.
RECURSIVE BitOp(_, _, _)
BitOp(op, a, b) == IF a = 0 /\ b = 0 THEN 0
                   ELSE LET p == a % 2
                            q == b % 2
                            r == CASE op = "and" -> IF p = 1 /\ q = 1 THEN 1 ELSE 0
                                   [] op = "or" -> IF p = 1 \/ q = 1 THEN 1 ELSE 0
                                   [] OTHER -> IF p # q THEN 1 ELSE 0
                        IN r + (2 * BitOp(op, a \div 2, b \div 2))
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
\* Two's complement of any width: negative operands through -x-1 = not x.
BitNot(a) == -a - 1
RECURSIVE BitOpS(_, _, _)
BitOpS(op, a, b) ==
  IF a >= 0 /\ b >= 0 THEN BitOp(op, a, b)
  ELSE CASE op = "and" -> IF a < 0 /\ b < 0 THEN BitNot(BitOp("or", BitNot(a), BitNot(b)))
                          ELSE IF a < 0 THEN b - BitOp("and", BitNot(a), b) ELSE a - BitOp("and", a, BitNot(b))
         [] op = "or" -> BitNot(BitOpS("and", BitNot(a), BitNot(b)))
         [] OTHER -> IF a < 0 /\ b < 0 THEN BitOp("xor", BitNot(a), BitNot(b))
                     ELSE IF a < 0 THEN BitNot(BitOp("xor", BitNot(a), b)) ELSE BitNot(BitOp("xor", a, BitNot(b)))
==============================================================================

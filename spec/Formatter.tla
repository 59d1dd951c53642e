----------------------------- MODULE Formatter -----------------------------
(* Programs as token sequences, and what formatting may do to them: nothing  *)
(* to the tokens (a comma before a closing delimiter does not count), and a  *)
(* marker becomes a comment or an empty line at its place.                   *)
(* Token atoms: "@s3" is string literal number 3, "@n3" numeric literal 3,   *)
(* "@d3" documentation text 3, "@c3" comment text 3 (the harness holds the   *)
(* texts).  "#comment" / "#blank" are the markers.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Family, From, To, Depth, NStr, NNum, NDoc, NCom

VARIABLES a, b, c, done
vars == <<a, b, c, done>>

\* Deterministic draws: a number in 0..n-1 that depends on the seed and the path.
P == 46337
Mix(s, k) == LET x == (s * 31 + k * 1009 + 7) % P IN (((x * x) % P) * x + 12345 + k) % P
Draw(s, k, n) == (Mix(Mix(s, k), k + 17) \div 3) % n

Str(i) == "@s" \o ToString(i % NStr)
Num(i) == "@n" \o ToString(i % NNum)
Doc(i) == "@d" \o ToString(i % NDoc)
Com(i) == "@c" \o ToString(i % NCom)

Cat(ss) == LET RECURSIVE C(_) C(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o C(k + 1) IN C(1)
Rep(s, sep, n) == LET RECURSIVE R(_) R(k) == IF k = 1 THEN s ELSE s \o sep \o R(k - 1) IN R(n)

\* --- expressions with operands x and y (token sequences)
NExpr == 34
ExprForm(k, x, y) ==
  CASE k = 0  -> x
    [] k = 1  -> <<"f", "(">> \o x \o <<",">> \o y \o <<")">>
    [] k = 2  -> <<"a", ".", "m", "(">> \o x \o <<")", ".", "n", "(">> \o y \o <<")">>
    [] k = 3  -> <<"a">> \o Cat([i \in 1..7 |-> <<".", "a_long_method_name", "(">> \o (IF i % 2 = 0 THEN x ELSE y) \o <<")">>])
    [] k = 4  -> <<"[">> \o x \o <<",">> \o y \o <<"]">>
    [] k = 5  -> <<"[">> \o Rep(x, <<",">>, 30) \o <<"]">>
    [] k = 6  -> <<"(">> \o x \o <<",", ")">>
    [] k = 7  -> <<"(">> \o x \o <<",">> \o y \o <<")">>
    [] k = 8  -> <<"vec", "!", "[">> \o x \o <<",">> \o y \o <<"]">>
    [] k = 9  -> <<"&">> \o <<"a", "[">> \o x \o <<"]">>
    [] k = 10 -> <<"|", "v", "|", "g", "(", "v", ",">> \o x \o <<")">>
    [] k = 11 -> <<"|", "v", ":", "f32", ",", "w", "|", "{", "let", "u", "=">> \o x \o <<";", "u", ".", "n", "(">> \o y \o <<")", "}">>
    [] k = 12 -> <<"{", "let", "u", "=">> \o x \o <<";", "u", ".", "n", "(">> \o y \o <<")", "}">>
    [] k = 13 -> <<"if", "c", "{">> \o x \o <<"}", "else", "{">> \o y \o <<"}">>
    [] k = 14 -> <<"if", "c", "{">> \o x \o <<"}", "else", "if", "d", "{">> \o y \o <<"}", "else", "{">> \o x \o <<"}">>
    [] k = 15 -> <<"match", "c", "{", "0", "=", ">", "{", "h", "(", ")", ";">> \o x \o <<"}", "_", "=", ">", "{", "h", "(", ")", ";">> \o y \o <<"}", "}">>
    [] k = 16 -> <<"S", "{", "p", ":">> \o x \o <<",", "q", ",", "r", ":">> \o y \o <<"}">>
    [] k = 17 -> <<"f", ":", ":", "<", "3", ",", "T", ">", "(">> \o x \o <<")">>
    [] k = 18 -> <<"Vec", ":", ":", "<", "f32", ">", ":", ":", "with", "(">> \o x \o <<")">>
    [] k = 19 -> <<"f", "(">> \o x \o <<")", "?">>
    [] k = 20 -> <<"concat", "!", "(">> \o x \o <<",">> \o y \o <<")">>
    [] k = 21 -> <<"a", "+", "b", "*", "(", "c", "-", "d", ")", "/", "g", "(">> \o x \o <<")">>
    [] k = 22 -> <<"a", ".", "0", ".", "m", "(">> \o x \o <<")", ".", "await">>
    [] k = 23 -> <<"a", "as", "i64", ".", ".", "b", "as", "i64">>
    [] k = 24 -> <<"[">> \o x \o <<";", "3", "]">>
    [] k = 25 -> <<"!", "f", "(", "*", "a", ",", "&", "mut", "b", ",">> \o x \o <<")">>
    [] k = 26 -> <<"(", "a", "&", "&", "b", ")", "|", "|", "f", "(">> \o x \o <<")", "=", "=", "g", "(">> \o y \o <<")">>
    [] k = 27 -> <<"a", ".", "m", "(", "[">> \o Rep(x, <<",">>, 3) \o <<"]", ")", ".", "n", "(", "s", "!", "[">> \o Rep(y, <<",">>, 3) \o <<"]", ")">>
    [] k = 28 -> <<"unsafe", "{", "f", "(">> \o x \o <<")", "}">>
    [] k = 29 -> <<"loop", "{", "if", "c", "{", "break", "f", "(">> \o x \o <<")", ";", "}", "g", "(">> \o y \o <<")", ";", "}">>
    [] k = 30 -> <<"move", "|", "|", "f", "(">> \o x \o <<")">>
    [] k = 31 -> <<"f", "(", "[">> \o Rep(<<"[">> \o x \o <<"]">>, <<",">>, 9) \o <<"]", ")">>
    [] k = 32 -> <<"panic", "!", "(">> \o x \o <<",">> \o y \o <<")">>
    [] OTHER  -> <<"-", "f", "(", "-", "a", ",", "-", "g", "(">> \o x \o <<")", ")">>

\* --- statements with an expression e and a body bs (statements)
NStmt == 15
StmtForm(k, e, bs) ==
  CASE k = 0  -> <<"let", "x", "=">> \o e \o <<";">>
    [] k = 1  -> <<"let", "x", ":", "Vec", "<", "[", "f32", ";", "3", "]", ">", "=">> \o e \o <<";">>
    [] k = 2  -> <<"let", "mut", "x", "=">> \o e \o <<";">>
    [] k = 3  -> <<"let", "(", "x", ",", "y", ")", "=">> \o e \o <<";">>
    [] k = 4  -> <<"x", "=">> \o e \o <<";">>
    [] k = 5  -> <<"f", "(">> \o e \o <<")", ";">>
    [] k = 6  -> <<"for", "i", "in", "0", ".", ".", "n", "{">> \o bs \o <<"h", "(">> \o e \o <<")", ";", "}">>
    [] k = 7  -> <<"while", "i", "<", "3", "{", "i", "+", "=", "1", ";">> \o bs \o <<"}">>
    [] k = 8  -> <<"if", "a", "!", "=", "b", "{">> \o bs \o <<"}">>
    [] k = 9  -> <<"{">> \o bs \o <<"h", "(">> \o e \o <<")", ";", "}">>
    [] k = 10 -> <<"return", "(">> \o e \o <<",", "y", ")", ";">>
    [] k = 11 -> <<"#", "[", "allow", "(", "unused", ")", "]", "let", "z", "=">> \o e \o <<";">>
    [] k = 12 -> <<"const", "K", ":", "i64", "=">> \o e \o <<";">>
    [] k = 13 -> <<"match", "x", "{", "Some", "(", "y", ")", "=", ">", "{">> \o bs \o <<"h", "(">> \o e \o <<")", ";", "}", "_", "=", ">", "{", "}", "}">>
    [] OTHER  -> <<"let", "_", "=", "loop", "{">> \o bs \o <<"break", "h", "(">> \o e \o <<")", ";", "}", ";">>

\* --- items with a body bs, an expression e, documentation d
DocOf(d) == <<"#", "[", "doc", "=", d, "]">>
NItem == 17
ItemForm(k, bs, e, d) ==
  CASE k = 0  -> <<"fn", "f", "(", ")", "{">> \o bs \o <<"}">>
    [] k = 1  -> DocOf(d) \o <<"pub", "fn", "f", "(", "&", "self", ",", "x", ":", "Tensor", "<", "B", ",", "3", ",", "Int", ">", ")", "-", ">", "(", "i64", ",", "[", "i64", ";", "2", "]", ")", "{">> \o bs \o e \o <<"}">>
    [] k = 2  -> <<"#", "[", "derive", "(", "Debug", ",", "Module", ")", "]", "pub", "struct", "M", "<", "B", ":", "Backend", ">", "{">> \o DocOf(d) \o <<"p", ":", "Conv2d", "<", "B", ">", ",", "q", ":", "PhantomData", "<", "B", ">", ",", "}">>
    [] k = 3  -> <<"impl", "<", "B", ":", "Backend", ">", "Default", "for", "M", "<", "B", ">", "{", "fn", "default", "(", ")", "-", ">", "Self", "{">> \o bs \o <<"Self", ":", ":", "new", "(">> \o e \o <<")", "}", "}">>
    [] k = 4  -> <<"use", "a", ":", ":", "b", ":", ":", "{", "c", ",", "d", "}", ";">>
    [] k = 5  -> <<"static", "X", ":", "&", "[", "u8", "]", "=", "include_bytes", "!", "(">> \o e \o <<")", ";">>
    [] k = 6  -> <<"pub", "mod", "m", "{", "fn", "g", "(", ")", "{">> \o bs \o <<"}", "}">>
    [] k = 7  -> <<"pub", "(", "crate", ")", "enum", "E", "{">> \o DocOf(d) \o <<"A", ",", "B", "(", "f32", ")", ",", "}">>
    [] k = 8  -> <<"type", "T", "=", "Vec", "<", "Option", "<", "f32", ">", ">", ";">>
    [] k = 9  -> <<"fn", "f", "<", "'a", ",", "T", ">", "(", "x", ":", "&", "'a", "T", ")", "-", ">", "&", "'a", "T", "where", "T", ":", "Clone", ",", "{">> \o bs \o <<"x", "}">>
    [] k = 10 -> <<"#", "[", "allow", "(", "clippy", ":", ":", "too_many_arguments", ")", "]", "fn", "f", "(">> \o Rep(<<"x", ":", "Tensor", "<", "B", ",", "4", ">">>, <<",">>, 9) \o <<")", "{">> \o bs \o <<"}">>
    [] k = 11 -> <<"include", "!", "(">> \o e \o <<")", ";">>
    [] k = 12 -> <<"impl", "M", "{">> \o DocOf(d) \o <<"pub", "fn", "g", "(", "self", ")", "{">> \o bs \o <<"}">> \o DocOf(d) \o <<"fn", "h", "(", ")", "{", "}", "}">>
    [] k = 13 -> <<"const", "K", ":", "[", "f32", ";", "2", "]", "=">> \o e \o <<";">>
    [] k = 14 -> <<"#", "[", "rustfmt", ":", ":", "skip", "]", "fn", "f", "(", ")", "{">> \o bs \o <<"}">>
    [] k = 15 -> <<"extern", "crate", "alloc", ";">>
    [] OTHER  -> <<"pub", "trait", "Tr", "{", "fn", "t", "(", "&", "self", ")", "-", ">", "i64", "{">> \o bs \o e \o <<"}", "}">>

\* markers: a comment with text i, an empty line
Comment(i) == <<"#comment", Com(i)>>
Blank      == <<"#blank">>

Lit(i) == IF i % 2 = 0 THEN <<Str(i \div 2)>> ELSE <<Num(i \div 2)>>

\* --- random programs
RECURSIVE RExpr(_, _)
RExpr(s, d) == IF d = 0 THEN (IF Draw(s, 1, 4) = 0 THEN <<"v" \o ToString(Draw(s, 2, 9))>> ELSE Lit(Draw(s, 3, 4000)))
               ELSE ExprForm(Draw(s, 4, NExpr), RExpr(Mix(s, 5), d - 1), RExpr(Mix(s, 6), d - 1))
RECURSIVE RStmts(_, _, _)
RStmts(s, n, d) == IF n = 0 THEN <<>>
                   ELSE LET r == Draw(s, 7, 12)
                        IN (IF r = 0 THEN Comment(Draw(s, 8, 500)) ELSE IF r = 1 THEN Blank
                            ELSE StmtForm(Draw(s, 9, NStmt), RExpr(Mix(s, 10), d % 3), IF d = 0 THEN <<>> ELSE RStmts(Mix(s, 11), 2, d - 1)))
                           \o RStmts(Mix(s, 12), n - 1, d)
RECURSIVE RItems(_, _, _)
RItems(s, n, d) == IF n = 0 THEN <<>>
                   ELSE LET r == Draw(s, 13, 10)
                        IN (IF r = 0 THEN Comment(Draw(s, 14, 500)) ELSE IF r = 1 THEN Blank
                            ELSE ItemForm(Draw(s, 15, NItem), RStmts(Mix(s, 16), 1 + Draw(s, 17, 4), d), RExpr(Mix(s, 18), 1), Doc(Draw(s, 19, 500))))
                           \o RItems(Mix(s, 20), n - 1, d)

\* --- families.  Each program of a family has coordinates a, b, c.
Range1 == CASE Family = "lit"   -> 0..(NExpr - 1)           \* every form of expression with every literal
            [] Family = "expr"  -> 0..(NExpr - 1)           \* expressions inside expressions
            [] Family = "stmt"  -> 0..(NStmt - 1)
            [] Family = "item"  -> 0..(NItem - 1)
            [] Family = "mark"  -> 0..(NStmt - 1)
            [] Family = "imark" -> 0..(NItem - 1)
            [] OTHER            -> From..To
Range2 == CASE Family = "lit"   -> 0..(2 * (IF NStr > NNum THEN NStr ELSE NNum) - 1)
            [] Family = "expr"  -> 0..(NExpr - 1)
            [] Family = "stmt"  -> 0..(NExpr - 1)
            [] Family = "item"  -> 0..(NStmt - 1)
            [] Family = "mark"  -> 0..3
            [] Family = "imark" -> 0..3
            [] OTHER            -> {0}
Range3 == CASE Family = "item" -> 0..(NDoc - 1)
            [] Family \in {"mark", "imark"} -> 0..(NCom - 1)
            [] OTHER            -> {0}

Body(st) == <<"fn", "f", "(", ")", "{">> \o st \o <<"}">>
Program ==
  CASE Family = "lit"   -> Body(StmtForm(0, ExprForm(a, Lit(b), <<"y">>), <<>>))
    [] Family = "expr"  -> Body(StmtForm(0, ExprForm(a, ExprForm(b, <<"@s0">>, <<"@n0">>), ExprForm((b + a) % NExpr, <<"@n1">>, <<"@s1">>)), <<>>))
    [] Family = "stmt"  -> Body(StmtForm(a, ExprForm(b, <<"@s2">>, <<"@n2">>), StmtForm((a + b) % NStmt, <<"@s3">>, <<>>)) \o StmtForm((a * b) % NStmt, <<"@n3">>, <<>>))
    [] Family = "item"  -> ItemForm(a, StmtForm(b, Lit(b + c), StmtForm((b + 1) % NStmt, <<"@s4">>, <<>>)), <<"@s5">>, Doc(c)) \o ItemForm((a + b + c) % NItem, <<>>, <<"@n4">>, Doc(c + 1))
    [] Family = "mark"  -> LET m == IF c % 2 = 0 /\ b = 3 THEN Blank \o Comment(c) ELSE Comment(c)
                               st == StmtForm(a, <<"@s6">>, IF b = 1 THEN m ELSE <<>>)
                           IN Body((IF b = 0 THEN m ELSE <<>>) \o st \o (IF b >= 2 THEN m ELSE <<>>) \o (IF b = 3 THEN st ELSE <<>>))
    [] Family = "imark" -> LET m == IF b = 3 THEN Blank ELSE Comment(c)
                               it == ItemForm(a, IF b = 1 THEN m ELSE <<>>, <<"@s7">>, Doc(c))
                           IN (IF b = 0 THEN m ELSE <<>>) \o it \o (IF b >= 2 THEN m ELSE <<>>) \o it
    [] OTHER            -> RItems(Mix(a % P, 3 + (a \div P)), 1 + Draw(a % P, 21, 4), Depth)

Init == a \in Range1 /\ b \in Range2 /\ c \in Range3 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, c>> /\ PrintT("@@" \o ToJson([program |-> Program, at |-> <<a, b, c>>]))

\* The grammar is balanced: every opening delimiter is closed (angle brackets aside).
Opens == {"(", "[", "{"}
Closes == {")", "]", "}"}
Balanced == LET p == Program IN Cardinality({i \in DOMAIN p : p[i] \in Opens}) = Cardinality({i \in DOMAIN p : p[i] \in Closes})
=============================================================================

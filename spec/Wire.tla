-------------------------------- MODULE Wire --------------------------------
(* When a string of bytes is a model file at all: the wire format of protocol buffers *)
(* with the messages of ONNX, and files with bytes lost, doubled, changed or cut off. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS File,     \* model files: sequences of bytes
          Depth     \* the most changes made to a file
Base == TLCEval(JsonDeserialize(File))
VARIABLES b, x, done, same

\* What a length-delimited field of a message holds: text, any bytes, packed numbers, or another message.
Messages == <<"Model", "Graph", "Node", "Attr", "Tensor", "Info", "Type", "TensorType", "Shape", "Dim", "Pair", "Opset">>
Holds(msg, f) ==
  CASE msg = "Model" -> (CASE f \in {2, 3, 4, 6} -> "text" [] f = 7 -> "Graph" [] f = 8 -> "Opset" [] f = 14 -> "Pair" [] f \in {20, 25, 26} -> "?" [] OTHER -> "bytes")
    [] msg = "Graph" -> (CASE f \in {2, 10} -> "text" [] f = 1 -> "Node" [] f = 5 -> "Tensor" [] f \in {11, 12, 13} -> "Info" [] f \in {14, 15, 16} -> "?" [] OTHER -> "bytes")
    [] msg = "Node" -> (CASE f \in {1, 2, 3, 4, 6, 7, 8} -> "text" [] f = 5 -> "Attr" [] f \in {9, 10} -> "?" [] OTHER -> "bytes")
    [] msg = "Attr" -> (CASE f \in {1, 13, 21} -> "text" [] f \in {5, 10} -> "Tensor" [] f \in {6, 11} -> "Graph" [] f = 7 -> "four" [] f = 8 -> "varints" [] f \in {14, 15} -> "Type" [] f \in {22, 23} -> "?" [] OTHER -> "bytes")
    [] msg = "Tensor" -> (CASE f \in {8, 12} -> "text" [] f \in {1, 5, 7, 11} -> "varints" [] f = 4 -> "four" [] f = 10 -> "eight" [] f = 13 -> "Pair" [] f \in {3, 16} -> "?" [] OTHER -> "bytes")
    [] msg = "Info" -> (CASE f \in {1, 3} -> "text" [] f = 2 -> "Type" [] f = 4 -> "?" [] OTHER -> "bytes")
    [] msg = "Type" -> (CASE f = 6 -> "text" [] f = 1 -> "TensorType" [] f \in {4, 5, 7, 8, 9} -> "?" [] OTHER -> "bytes")
    [] msg = "TensorType" -> (IF f = 2 THEN "Shape" ELSE "bytes")
    [] msg = "Shape" -> (IF f = 1 THEN "Dim" ELSE "bytes")
    [] msg = "Dim" -> (IF f \in {2, 3} THEN "text" ELSE "bytes")
    [] msg = "Pair" -> (IF f \in {1, 2} THEN "text" ELSE "bytes")
    [] msg = "Opset" -> (IF f = 1 THEN "text" ELSE "bytes")

\* The number that starts at p: its value (no more than Huge, as no file is that long) and where it ends; end 0 if none does before q.
Huge == 2 ^ 28
RECURSIVE Number(_, _, _)
Number(s, p, q) == IF p >= q THEN [v |-> 0, e |-> 0, n |-> 0]
                   ELSE IF s[p] < 128 THEN [v |-> s[p], e |-> p + 1, n |-> 1]
                   ELSE LET r == Number(s, p + 1, q)
                        IN IF r.e = 0 \/ r.n = 10 THEN [v |-> 0, e |-> 0, n |-> 0] ELSE [v |-> IF r.v >= 2 ^ 20 THEN Huge ELSE (r.v * 128) + (s[p] - 128), e |-> r.e, n |-> r.n + 1]
\* Text is UTF-8, without surrogates or forms longer than needed.
Next1(s, p, q) == p < q /\ s[p] \in 128..191
RECURSIVE Text(_, _, _)
Text(s, p, q) ==
  IF p = q THEN TRUE
  ELSE IF s[p] < 128 THEN Text(s, p + 1, q)
  ELSE IF s[p] \in 194..223 THEN Next1(s, p + 1, q) /\ Text(s, p + 2, q)
  ELSE IF s[p] \in 224..239 THEN Next1(s, p + 1, q) /\ Next1(s, p + 2, q) /\ (s[p] = 224 => s[p + 1] >= 160) /\ (s[p] = 237 => s[p + 1] < 160) /\ Text(s, p + 3, q)
  ELSE IF s[p] \in 240..244 THEN Next1(s, p + 1, q) /\ Next1(s, p + 2, q) /\ Next1(s, p + 3, q) /\ (s[p] = 240 => s[p + 1] >= 144) /\ (s[p] = 244 => s[p + 1] < 144) /\ Text(s, p + 4, q)
  ELSE FALSE
RECURSIVE Numbers(_, _, _)
Numbers(s, p, q) == p = q \/ LET r == Number(s, p, q) IN r.e # 0 /\ Numbers(s, r.e, q)
\* "no": not such a message; "?": it may be one; else "yes".
Worse(u, v) == IF u = "no" THEN "no" ELSE IF u = "?" /\ v # "no" THEN "?" ELSE v
Tell(c) == IF c THEN "yes" ELSE "no"
RECURSIVE Message(_, _, _, _)
Content(s, p, q, what) ==
  CASE what = "text" -> Tell(Text(s, p, q)) [] what = "bytes" -> "yes" [] what = "?" -> "?"
    [] what = "varints" -> Tell(Numbers(s, p, q)) [] what = "four" -> Tell((q - p) % 4 = 0) [] what = "eight" -> Tell((q - p) % 8 = 0)
    [] OTHER -> Message(s, p, q, what)
Message(s, p, q, msg) ==
  IF p = q THEN "yes" ELSE
  LET t == Number(s, p, q) f == t.v \div 8 w == t.v % 8
  IN IF t.e = 0 \/ f = 0 THEN "no"
     ELSE CASE t.v >= 2 ^ 27 -> "?"
            [] w = 0 -> LET r == Number(s, t.e, q) IN IF r.e = 0 THEN "no" ELSE Worse(IF r.n > 5 /\ <<msg, f>> \in {<<"Tensor", 2>>, <<"Tensor", 14>>, <<"Attr", 20>>, <<"TensorType", 1>>} THEN "?" ELSE "yes", Message(s, r.e, q, msg))
            [] w = 1 -> IF t.e + 8 > q THEN "no" ELSE Message(s, t.e + 8, q, msg)
            [] w = 5 -> IF t.e + 4 > q THEN "no" ELSE Message(s, t.e + 4, q, msg)
            [] w = 2 -> LET r == Number(s, t.e, q)
                        IN IF r.e = 0 \/ r.e + r.v > q THEN "no" ELSE Worse(Content(s, r.e, r.e + r.v, Holds(msg, f)), Message(s, r.e + r.v, q, msg))
            [] w = 3 -> "?"
            [] OTHER -> "no"
\* The fields at the top: <<field, from, to>>; of well-formed files only.
RECURSIVE Top(_, _)
Top(s, p) == IF p > Len(s) THEN <<>> ELSE
             LET t == Number(s, p, Len(s) + 1) w == t.v % 8 r == Number(s, t.e, Len(s) + 1)
                 e == CASE w = 0 -> r.e [] w = 1 -> t.e + 8 [] w = 5 -> t.e + 4 [] w = 2 -> r.e + r.v
             IN <<<<t.v, p, e - 1>>>> \o Top(s, e)
Fields(s) == {Top(s, 1)[k][1] : k \in DOMAIN Top(s, 1)}
\* A model has a graph and says of which operator set it is.
Model(s) == LET m == Message(s, 1, Len(s) + 1, "Model")
            IN IF m = "yes" THEN Tell({58, 66} \subseteq Fields(s)) ELSE m

\* Whether the last field at the top says it is longer than what is left of the file.
RECURSIVE Over(_, _)
Over(s, p) == p <= Len(s) /\
              LET t == Number(s, p, Len(s) + 1) w == t.v % 8 r == Number(s, t.e, Len(s) + 1)
              IN t.e # 0 /\ CASE w = 1 -> Over(s, t.e + 8) [] w = 5 -> Over(s, t.e + 4) [] w = 0 -> r.e # 0 /\ Over(s, r.e)
                               [] w = 2 -> r.e # 0 /\ (r.e + r.v > Len(s) + 1 \/ Over(s, r.e + r.v)) [] OTHER -> FALSE

\* --- changes
Cut(k) == <<"cut after " \o ToString(k), SubSeq(x, 1, k), FALSE>>
Lost(k) == <<"byte " \o ToString(k) \o " lost", SubSeq(x, 1, k - 1) \o SubSeq(x, k + 1, Len(x)), FALSE>>
Double(k) == <<"byte " \o ToString(k) \o " twice", SubSeq(x, 1, k) \o SubSeq(x, k, Len(x)), FALSE>>
Other(k, v) == <<"byte " \o ToString(k) \o " is " \o ToString(v), [x EXCEPT ![k] = v], FALSE>>
Swapped(i, j) == LET t == Top(x, 1) part(k) == SubSeq(x, t[k][2], t[k][3])
                     RECURSIVE All(_)
                     All(k) == IF k > Len(t) THEN <<>> ELSE part(IF k = i THEN j ELSE IF k = j THEN i ELSE k) \o All(k + 1)
                 IN <<"fields " \o ToString(i) \o " and " \o ToString(j) \o " exchanged", All(1), TRUE>>
Changes == {Cut(k) : k \in 0..(Len(x) - 1)} \union {Lost(k) : k \in 1..Len(x)} \union {Double(k) : k \in 1..Len(x)}
           \union {Other(k, v) : k \in 1..Len(x), v \in {0, 127, 128, 255}}
           \union {Other(k, (x[k] + d) % 256) : k \in 1..Len(x), d \in {1, 2, 4, 8, 16, 32, 64, 255}}
Orders == IF done # <<>> THEN {} ELSE LET t == Top(x, 1) IN {Swapped(p[1], p[2]) : p \in {p \in (1..Len(t)) \X (1..Len(t)) : p[1] < p[2] /\ t[p[1]][1] # t[p[2]][1]}}

Init == b \in DOMAIN Base /\ x = Base[b] /\ done = <<>> /\ same = TRUE
Next == /\ Len(done) < Depth /\ b' = b
        /\ \E c \in Changes \union Orders : x' = c[2] /\ done' = Append(done, c[1]) /\ same' = (same /\ c[3])
BaseIsModel == done = <<>> => Model(x) = "yes"
\* The order of the fields says nothing; what is well-formed otherwise may still not be a model that can be imported.
Verdict == IF Model(x) = "no" THEN "refuse" ELSE IF same THEN "accept" ELSE "either"
Emit == done # <<>> => PrintT("@@" \o ToJson([b |-> b, done |-> done, x |-> x, over |-> Over(x, 1), expect |-> Verdict]))
=============================================================================

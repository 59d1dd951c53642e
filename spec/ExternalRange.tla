--------------------------- MODULE ExternalRange ---------------------------
(* Which bytes an external tensor holds.  A data file of FileSize bytes, in  *)
(* which byte i has value i (so any shift or truncation shows); tensors with *)
(* an element type, a number of elements and optional offset and length.     *)
(* Without a length the tensor takes as many bytes as its elements need.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSize, Rich

Types == IF Rich THEN {"U8", "I8", "I16", "U16", "F16", "BF16", "I32", "U32", "F32", "I64", "U64", "F64", "Bool"}
         ELSE {"U8", "I16", "F32", "I64"}
Width(t) == CASE t \in {"U8", "I8", "Bool"} -> 1 [] t \in {"I16", "U16", "F16", "BF16"} -> 2
              [] t \in {"I32", "U32", "F32"} -> 4 [] OTHER -> 8

None == -1
\* Numbers beyond TLC's range are symbolic: 2^64 - k, or 2^46 for k = 100.
Huge(k) == [huge |-> TRUE, v |-> k]
Lit(k)  == [huge |-> FALSE, v |-> k]

VARIABLES size, tensors, phase
vars == <<size, tensors, phase>>

Offsets == {Lit(None)} \cup {Lit(k) : k \in 0..(MaxSize + 1)} \cup {Huge(1), Huge(4), Huge(8), Huge(100)}
Lengths(n) == {Lit(None), Lit(n), Lit(n + 1), Lit(n - 1), Lit(0), Huge(1), Huge(4), Huge(100)}

\* The declared range; huge offsets and lengths are never inside a file.
Start(t) == IF t.offset.v = None /\ ~t.offset.huge THEN 0 ELSE t.offset.v
Need(t) == t.count * Width(t.type)
Size(t) == IF t.length.v = None THEN Need(t) ELSE t.length.v
Inside(t) == ~t.offset.huge /\ ~t.length.huge /\ Start(t) + Size(t) <= size
Bytes(t) == [i \in 1..Size(t) |-> Start(t) + i - 1]
\* The range must also hold exactly the declared number of elements.
Fits(t) == Len(Bytes(t)) = Need(t)

Meaning(t) == IF t.missing THEN [res |-> "reported"]
              ELSE IF Inside(t) /\ Fits(t) THEN [res |-> "ok", bytes |-> Bytes(t)]
              ELSE [res |-> "reported"]

TensorsOf(ty) == UNION {[type : {ty}, count : {n}, offset : Offsets, length : Lengths(n * Width(ty)), missing : {FALSE}] :
                          n \in {k \in 1..4 : k * Width(ty) <= MaxSize}}

Init == size \in {0, 1, MaxSize - 3, MaxSize} /\ tensors = <<>> /\ phase = "file"

AddTensor == /\ phase = "file"
             /\ \E ty \in Types : \E t \in TensorsOf(ty) \cup {[type |-> ty, count |-> 1, offset |-> Lit(0), length |-> Lit(None), missing |-> TRUE]} :
                  /\ tensors' = Append(tensors, t)
                  /\ PrintT("@@" \o ToJson([size |-> size, tensor |-> t, width |-> Width(ty), expect |-> Meaning(t)]))
             /\ phase' = "declared"
             /\ UNCHANGED size
Next == AddTensor

\* No byte from outside the file, and none from outside the declared range.
Exact == \A i \in DOMAIN tensors : LET m == Meaning(tensors[i]) IN
    m.res = "ok" => /\ \A k \in DOMAIN m.bytes : m.bytes[k] < size /\ m.bytes[k] >= Start(tensors[i])
                    /\ Len(m.bytes) = tensors[i].count * Width(tensors[i].type)
=============================================================================

----------------------------- MODULE TensorData -----------------------------
\* How a tensor is written into a model and what it means. A message is a TensorProto (and the file it may point to); Encode
\* writes a tensor in every way the format allows, Decode gives a message its meaning, and the steps damage a message. The
\* invariant is that Decode is the inverse of Encode; every message reached is emitted with its meaning.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, Long

Types == {"F32", "F64", "F16", "BF16", "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "Bool"}
Size(t) == CASE t \in {"I8", "U8", "Bool"} -> 1 [] t \in {"F16", "BF16", "I16", "U16"} -> 2 [] t \in {"F32", "I32", "U32"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"I8", "I16", "I32", "I64"}
\* The repeated field that holds the elements of a type, and the bytes of one of its units.
Field(t) == CASE t = "F32" -> "f" [] t = "F64" -> "d" [] t = "I64" -> "i64" [] t \in {"U32", "U64"} -> "u64" [] OTHER -> "i32"
Wide(f) == IF f \in {"f", "i32"} THEN 4 ELSE 8
\* Types of the format that are not types of the importer: undefined, string, two complex ones, small floats, unknown numbers.
Unsupported == {0, 8, 14, 15, 17, 99}

\* --- elements, as bytes, the lowest first
Rep(x, n) == [k \in 1..n |-> x]
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<0>>, <<2, 0, 3>>, <<1, 1, 1, 1, 2>>, <<37>>} \union (IF Long THEN {<<300, 3>>, <<4, 1, 70>>} ELSE {})
Special(t) ==
  CASE t = "F32" -> <<<<0, 0, 128, 63>>, <<0, 0, 0, 128>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>, <<0, 0, 192, 127>>, <<1, 0, 160, 255>>, <<1, 0, 0, 0>>, <<255, 255, 127, 127>>>>
    [] t = "F64" -> <<<<0, 0, 0, 0, 0, 0, 240, 63>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 0, 0, 240, 127>>, <<0, 0, 0, 0, 0, 0, 240, 255>>, <<1, 0, 0, 0, 0, 0, 248, 255>>,
                      <<1, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 239, 127>>>>
    [] t = "F16" -> <<<<0, 60>>, <<0, 128>>, <<0, 124>>, <<0, 252>>, <<1, 126>>, <<1, 254>>, <<1, 0>>, <<255, 123>>>>
    [] t = "BF16" -> <<<<128, 63>>, <<0, 128>>, <<128, 127>>, <<128, 255>>, <<193, 127>>, <<193, 255>>, <<1, 0>>, <<127, 127>>>>
    [] t = "Bool" -> <<<<1>>, <<0>>, <<0>>, <<1>>, <<1>>>>
    [] OTHER -> LET n == Size(t) IN <<<<1>> \o Rep(0, n - 1), Rep(255, n), Rep(0, n - 1) \o <<128>>, Rep(255, n - 1) \o <<127>>, Rep(0, n), [k \in 1..n |-> (k * 37 + 11) % 256], [k \in 1..n |-> 255 - k]>>
RECURSIVE Prod(_, _)
Prod(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * Prod(s, k + 1)
\* The number of elements; -1 when it is more than any payload has.
RECURSIVE Count(_, _)
Count(s, k) == IF k > Len(s) THEN 1
               ELSE LET r == Count(s, k + 1) IN IF s[k] = 0 THEN 0 ELSE IF r < 0 \/ (r > 0 /\ (s[k] > 30000 \/ r > 30000)) THEN -1 ELSE s[k] * r
Elements(t, s, off) == LET sp == Special(t) IN [k \in 1..Prod(s, 1) |-> sp[((k + off) % Len(sp)) + 1]]
RECURSIVE Flat(_, _)
Flat(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o Flat(ss, k + 1)

\* --- messages
\* raw: bytes; f: the repeated fields, units as bytes; ext: the file's bytes, the offset and the length said (-1 unsaid).
Empty == [raw |-> <<>>, f |-> [x \in {"f", "d", "i32", "i64", "u64"} |-> <<>>], ext |-> [on |-> FALSE, file |-> <<>>, offset |-> 0, length |-> -1]]
Message(t, s, e, how) == [t |-> t, code |-> -1, dims |-> s, raw |-> e.raw, f |-> e.f, ext |-> e.ext, packed |-> how # "unpacked"]
\* an element as a unit of its field
Widen(t, b) == LET n == Wide(Field(t)) IN b \o Rep(IF Signed(t) /\ b[Len(b)] >= 128 THEN 255 ELSE 0, n - Len(b))
Ways == {"raw", "packed", "unpacked", "file", "file without length", "inside a file"}
Encode(t, s, els, how) ==
  LET bytes == Flat(els, 1)
  IN Message(t, s,
       CASE how = "raw" -> [Empty EXCEPT !.raw = bytes]
         [] how \in {"packed", "unpacked"} -> [Empty EXCEPT !.f[Field(t)] = [k \in DOMAIN els |-> Widen(t, els[k])]]
         [] how = "file" -> [Empty EXCEPT !.ext = [on |-> TRUE, file |-> bytes, offset |-> 0, length |-> Len(bytes)]]
         [] how = "file without length" -> [Empty EXCEPT !.ext = [on |-> TRUE, file |-> bytes, offset |-> 0, length |-> -1]]
         [] OTHER -> [Empty EXCEPT !.ext = [on |-> TRUE, file |-> [k \in 1..16 |-> 200 + k] \o bytes \o <<201, 202, 203>>, offset |-> 16, length |-> Len(bytes)]], how)

\* --- meaning: the bytes of the elements, or refusal
Refuse == [ok |-> FALSE, bytes |-> <<>>]
Bytes(t, b, n) == IF n >= 0 /\ Len(b) = n * Size(t) /\ (t = "Bool" => \A k \in DOMAIN b : b[k] <= 1) THEN [ok |-> TRUE, bytes |-> b] ELSE Refuse
Decode(m) ==
  LET n == Count(m.dims, 1)
      own == m.f[Field(m.t)]
      narrow == [k \in DOMAIN own |-> IF m.t = "Bool" /\ own[k] # <<0, 0, 0, 0>> THEN <<1>> ELSE SubSeq(own[k], 1, Size(m.t))]
      len == IF m.ext.length >= 0 THEN m.ext.length ELSE n * Size(m.t)
  IN CASE m.code >= 0 \/ (\E k \in DOMAIN m.dims : m.dims[k] < 0) \/ n < 0 -> Refuse
       [] m.ext.on -> IF m.ext.offset + len <= Len(m.ext.file) THEN Bytes(m.t, SubSeq(m.ext.file, m.ext.offset + 1, m.ext.offset + len), n) ELSE Refuse
       [] m.raw # <<>> -> Bytes(m.t, m.raw, n)
       [] OTHER -> IF Len(own) = n /\ \A k \in DOMAIN own : (own[k] = Widen(m.t, narrow[k]) \/ m.t = "Bool") THEN Bytes(m.t, Flat(narrow, 1), n) ELSE Refuse
\* A message with data in two places, or with another number than 0 and 1 as a unit of bools, may be refused or read.
Filled(m) == {x \in DOMAIN m.f : m.f[x] # <<>>}
Torn(m) == \/ m.t = "Bool" /\ \E k \in DOMAIN m.f["i32"] : m.f["i32"][k] \notin {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>}
           \/ m.raw # <<>> /\ Filled(m) # {}
           \/ Filled(m) \ {Field(m.t)} # {}
           \/ m.ext.on /\ (m.raw # <<>> \/ Filled(m) # {})

\* --- damage
Front(s) == SubSeq(s, 1, Len(s) - 1)
Damage(m) ==
  LET x == Field(m.t)
      n == Size(m.t)
      dmg(what, m2) == [what |-> what, m |-> m2]
  IN (IF m.raw # <<>> THEN
        {dmg("a byte less", [m EXCEPT !.raw = Front(@)]), dmg("a byte more", [m EXCEPT !.raw = Append(@, 0)]),
         dmg("an element less", [m EXCEPT !.raw = SubSeq(@, 1, Len(m.raw) - n)]), dmg("an element more", [m EXCEPT !.raw = @ \o Rep(0, n)]),
         dmg("no data", [m EXCEPT !.raw = <<>>])}
        \union (IF m.t = "Bool" THEN {dmg("a bool of 2", [m EXCEPT !.raw[Len(m.raw)] = 2]), dmg("a bool of 255", [m EXCEPT !.raw[1] = 255])} ELSE {})
      ELSE {})
     \union (IF Filled(m) # {} /\ ~m.ext.on THEN
        {dmg("a unit less", [m EXCEPT !.f[x] = IF @ = <<>> THEN <<>> ELSE Front(@)]), dmg("a unit more", [m EXCEPT !.f[x] = Append(@, Rep(0, Wide(x)))]),
         dmg("no units", [m EXCEPT !.f[x] = <<>>])}
        \union (IF m.f[x] # <<>> /\ n < Wide(x) THEN
          {dmg("a unit too high", [m EXCEPT !.f[x][Len(m.f[x])] = [k \in 1..Wide(x) |-> IF k <= n THEN m.f[x][Len(m.f[x])][k] ELSE IF k = n + 1 THEN 1 ELSE 0]]),
           dmg("a unit too low", [m EXCEPT !.f[x][1] = [k \in 1..Wide(x) |-> IF k <= n THEN 0 ELSE 254]])} ELSE {})
        \union (IF m.t = "Bool" /\ m.f[x] # <<>> THEN {dmg("a bool unit of 2", [m EXCEPT !.f[x][1] = <<2, 0, 0, 0>>])} ELSE {})
        \union {dmg("units in another field", [m EXCEPT !.f[x] = <<>>, !.f[y] = [k \in DOMAIN m.f[x] |-> SubSeq(m.f[x][k] \o Rep(0, 8), 1, Wide(y))]]) : y \in (DOMAIN m.f) \ {x}}
      ELSE {})
     \union (IF m.ext.on THEN
        {dmg("a byte less in the file", [m EXCEPT !.ext.file = IF @ = <<>> THEN <<>> ELSE Front(@)]), dmg("length one less", [m EXCEPT !.ext.length = IF @ > 0 THEN @ - 1 ELSE @]),
         dmg("length an element more", [m EXCEPT !.ext.length = IF @ >= 0 THEN @ + n ELSE @]), dmg("longer file", [m EXCEPT !.ext.file = @ \o Rep(7, 9)])}
      ELSE {})
     \union (IF m.dims # <<>> THEN {dmg("an extent more", [m EXCEPT !.dims[1] = @ + 1]), dmg("a negative extent", [m EXCEPT !.dims[Len(m.dims)] = -1])} ELSE {})
     \union {dmg("other extents", [m EXCEPT !.dims = d]) : d \in {<<>>, <<0>>, <<-1, -1>>, <<-2, -3>>, <<65536, 65536, 65536, 65536>>, <<2147483647, 2147483647, 4>>}}
     \union {dmg("another type", [m EXCEPT !.t = t]) : t \in {t \in Types \ {m.t} : m.raw # <<>> \/ m.ext.on \/ Field(t) = Field(m.t)}}
     \union {dmg("a type not supported", [m EXCEPT !.code = c]) : c \in Unsupported}

VARIABLES base, msg, did
vars == <<base, msg, did>>
Init == /\ \E t \in Types, s \in Shapes, how \in Ways, off \in {0, 3} :
             /\ off = 0 \/ Prod(s, 1) \in 1..3
             /\ base = [t |-> t, s |-> s, els |-> Elements(t, s, off), how |-> how]
             /\ msg = Encode(t, s, Elements(t, s, off), how)
        /\ did = <<>>
Next == /\ Len(did) < Steps
        /\ Prod(base.s, 1) < 40
        /\ (Len(did) >= 1 => Prod(base.s, 1) <= 3)
        /\ \E d \in Damage(msg) : d.m # msg /\ msg' = d.m /\ did' = Append(did, d.what)
        /\ UNCHANGED base
\* Decode undoes Encode, whatever the way of writing.
Inverse == did = <<>> => Decode(msg) = [ok |-> TRUE, bytes |-> Flat(base.els, 1)]
\* Damage to the amount of data is always seen: what is accepted has exactly the declared size.
Exact == Decode(msg).ok => Len(Decode(msg).bytes) = Prod(msg.dims, 1) * Size(msg.t)
View == <<base.how, msg>>
Out == [msg |-> msg, how |-> base.how, did |-> did, ok |-> Decode(msg).ok, either |-> Torn(msg), bytes |-> Decode(msg).bytes]
Emit == PrintT("@@" \o ToJson(Out))
==============================================================================

---------------------------- MODULE ExternalMeta ----------------------------
(* The external_data entries of a tensor, read one by one.                   *)
(* A behaviour is one history of entries; the parser's state after each      *)
(* entry is explicit, so the invariants speak about every prefix.            *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxLen,      \* longest entry list
          Rich         \* TRUE: the full alphabet

\* Values of a numeric entry: text, whether it is a decimal number that fits
\* 64 bits, and its value in normal form.
Num(t, v) == [text |-> t, ok |-> TRUE, v |-> v]
Bad(t)    == [text |-> t, ok |-> FALSE, v |-> ""]

Numbers == {Num("0", "0"), Num("4096", "4096"), Bad("x"), Bad("-1"), Bad(""),
            Num("18446744073709551615", "18446744073709551615"),
            Bad("18446744073709551616")}
           \cup (IF Rich THEN {Num("007", "7"), Bad("1.0"), Bad("0x10"), Bad("1 "), Bad(" 1"), Bad("1_000"),
                               Num("9223372036854775808", "9223372036854775808")} ELSE {})

Plain(t) == [text |-> t, ok |-> TRUE, v |-> t]

Entries ==
    [k : {"location"}, val : {Plain("w.bin"), Plain("sub/w.bin")}]
    \cup [k : {"offset", "length"}, val : Numbers]
    \cup [k : {"checksum"}, val : {Plain("abc"), Plain("")}]
    \cup [k : {"basepath", "Offset", ""}, val : {Plain("9")}]

None == "none"

VARIABLES entries, st

vars == <<entries, st>>

Start == [err |-> FALSE, location |-> None, offset |-> "0", length |-> None, checksum |-> None]

Step(s, e) ==
    IF s.err THEN s
    ELSE CASE e.k = "location" -> [s EXCEPT !.location = e.val.text]
           [] e.k = "checksum" -> [s EXCEPT !.checksum = e.val.text]
           [] e.k \in {"offset", "length"} ->
                IF e.val.ok THEN [s EXCEPT ![e.k] = e.val.v] ELSE [s EXCEPT !.err = TRUE]
           [] OTHER -> s

Outcome(s) == IF s.err \/ s.location = None THEN [res |-> "err"]
              ELSE [res |-> "ok", location |-> s.location, offset |-> s.offset,
                    length |-> s.length, checksum |-> s.checksum]

Emit(es, s) == PrintT("@@" \o ToJson([entries |-> [i \in 1..Len(es) |-> <<es[i].k, es[i].val.text>>],
                                      expect |-> Outcome(s)]))

Init == entries = <<>> /\ st = Start /\ Emit(<<>>, Start)

Read == /\ Len(entries) < MaxLen
        /\ \E e \in Entries :
             /\ entries' = Append(entries, e)
             /\ st' = Step(st, e)
             /\ Emit(entries', st')

Next == Read

(* What the property demands, stated over the whole history rather than      *)
(* over the parser's state.                                                  *)
Last(k) == LET is == {i \in 1..Len(entries) : entries[i].k = k}
           IN IF is = {} THEN None ELSE entries[CHOOSE i \in is : \A j \in is : j <= i].val.v

Malformed == \E i \in 1..Len(entries) : entries[i].k \in {"offset", "length"} /\ ~entries[i].val.ok

Meaning ==
    /\ (Outcome(st).res = "err") <=> (Malformed \/ Last("location") = None)
    /\ Outcome(st).res = "ok" =>
         /\ st.location = Last("location")
         /\ st.offset = IF Last("offset") = None THEN "0" ELSE Last("offset")
         /\ st.length = Last("length")
         /\ st.checksum = Last("checksum")

(* Entries with different keys commute.                                      *)
Commute == \A i \in 1..(Len(entries) - 1) :
    entries[i].k # entries[i + 1].k =>
      LET sw == [entries EXCEPT ![i] = entries[i + 1], ![i + 1] = entries[i]]
          F[k \in 0..Len(entries)] == IF k = 0 THEN Start ELSE Step(F[k - 1], sw[k])
      IN Outcome(F[Len(entries)]) = Outcome(st)
=============================================================================

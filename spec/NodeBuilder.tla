---------------------------- MODULE NodeBuilder ----------------------------
(* A node builder: a machine whose calls append operands and results and set *)
(* the configuration; build returns what the calls gave, in order.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Family, MaxCalls, From, To

DTypes == <<"F32", "I64", "Bool", "F16", "U8", "F64", "I8", "U64", "BF16", "I32", "U16", "I16", "U32">>
Names  == <<"a", "b", "a", "", "input_1", "@q", "@u", "@nl">>
Shapes == <<<<>>, <<1>>, <<2, 3>>, <<4, 1, 0>>, <<5, 6, 7, 8>>, <<16777216, 3>>>>
Ranks  == <<0, 1, 2, 3, 4, 7, 65>>
Kinds  == <<"plain", "configured", "node", "nodeconfig", "first", "Abs", "Concat">>
HasConfig == {"configured", "nodeconfig", "first", "Concat"}

Methods == <<"input_tensor", "input_tensor_shape", "input_static_tensor_shape", "input_scalar", "input_scalar_tensor", "input_shape",
             "input_const_i64", "output_tensor", "output_scalar", "output_scalar_tensor", "output_shape", "config">>
Ins == {1, 2, 3, 4, 5, 6, 7}

\* A call: which method, and the numbers of the values it takes.
Call(m, v) == [m |-> Methods[m], mi |-> m, name |-> Names[(v % Len(Names)) + 1], dtype |-> DTypes[((v * 5 + m) % Len(DTypes)) + 1],
               rank |-> Ranks[((v * 3 + m) % Len(Ranks)) + 1], shape |-> Shapes[((v * 7 + m) % Len(Shapes)) + 1], value |-> (v * 7919 - 20) * (IF v % 2 = 0 THEN 1 ELSE -1)]

VARIABLES kind, calls, node, built
vars == <<kind, calls, node, built>>

Arg(c) ==
  LET t == [k |-> "Tensor", dtype |-> c.dtype, rank |-> c.rank, static |-> <<"none">>]
      base == CASE c.m \in {"input_tensor", "output_tensor"} -> t
                [] c.m \in {"input_tensor_shape", "input_static_tensor_shape"} -> [t EXCEPT !.rank = Len(c.shape), !.static = <<"known", c.shape>>]
                [] c.m \in {"input_scalar", "output_scalar"} -> [t EXCEPT !.k = "ScalarNative", !.rank = 0]
                [] c.m \in {"input_scalar_tensor", "output_scalar_tensor"} -> [t EXCEPT !.k = "ScalarTensor", !.rank = 1]
                [] c.m = "input_const_i64" -> [t EXCEPT !.k = "ScalarNative", !.rank = 0, !.dtype = "I64"]
                [] OTHER -> [t EXCEPT !.k = "Shape", !.dtype = "I64"]
      src == CASE c.m \in {"input_static_tensor_shape", "input_const_i64"} -> "Static"
               [] c.name = "" -> "Optional"
               [] OTHER -> "Dynamic"
  IN [name |-> c.name, ty |-> base, src |-> src, value |-> IF c.m = "input_const_i64" THEN <<c.value>> ELSE <<>>]

Empty == [ins |-> <<>>, outs |-> <<>>, config |-> <<>>]
Apply(n, c) == IF c.m = "config" THEN [n EXCEPT !.config = <<c.value>>]
               ELSE IF c.mi \in Ins THEN [n EXCEPT !.ins = Append(@, Arg(c))]
               ELSE [n EXCEPT !.outs = Append(@, Arg(c))]

P == 46337
Mix(s, k) == LET x == (s * 31 + k * 1009 + 7) % P IN (((x * x) % P) * x + 12345 + k) % P

\* A history: a kind of node, then calls, then build.
Init == /\ kind \in (IF Family = "random" THEN From..To ELSE DOMAIN Kinds)
        /\ calls = <<>> /\ node = Empty /\ built = FALSE
K == IF Family = "random" THEN (kind % Len(Kinds)) + 1 ELSE kind
Allowed(m) == m # 12 \/ Kinds[K] \in HasConfig
Variants(m) == IF Family = "short" THEN {Len(calls) * 3 + m} ELSE 0..15
Do == /\ ~built /\ Len(calls) < MaxCalls
      /\ \E m \in (IF Family = "random" THEN {(((Mix(kind, Len(calls) + 1) \div 7)) % 12) + 1} ELSE DOMAIN Methods) :
           /\ Allowed(m) \/ Family = "random"
           /\ \E v \in (IF Family = "random" THEN {(Mix(kind, Len(calls) + 100) \div 5) % 4000} ELSE Variants(m)) :
                LET c == IF Allowed(m) THEN Call(m, v) ELSE Call(1, v) IN
                calls' = Append(calls, c) /\ node' = Apply(node, c)
      /\ UNCHANGED <<kind, built>>
Stop == Family # "random" \/ Len(calls) = MaxCalls \/ (Mix(kind, Len(calls) + 50) % 9) = 0
Build == /\ ~built /\ Stop /\ built' = TRUE /\ UNCHANGED <<kind, calls, node>>
         /\ PrintT("@@" \o ToJson([kind |-> Kinds[K], calls |-> calls, node |-> node,
                                   fails |-> Kinds[K] \in HasConfig /\ node.config = <<>>]))
Next == Do \/ Build

\* What build returns is determined by the calls alone, and keeps their order.
Select(s, ok(_)) == SelectSeq(s, ok)
Faithful == /\ Len(node.ins) = Len(SelectSeq(calls, LAMBDA c : c.mi \in Ins))
            /\ Len(node.outs) = Len(SelectSeq(calls, LAMBDA c : c.mi \in 8..11))
            /\ [i \in DOMAIN node.ins |-> node.ins[i].name] = [i \in DOMAIN node.ins |-> SelectSeq(calls, LAMBDA c : c.mi \in Ins)[i].name]
            /\ (node.config # <<>>) = (\E i \in DOMAIN calls : calls[i].m = "config")
=============================================================================

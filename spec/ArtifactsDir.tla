---------------------------- MODULE ArtifactsDir ----------------------------
(* Where the stages of a model check keep a model's artifacts, as a function *)
(* of the environment and the model.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Models

\* Values of an environment variable: unset, empty, absolute and relative paths (atoms; the harness holds the texts).
Burn == {"unset", "empty", "abs", "spaces", "bytes", "rel", "trail", "dots", "root"}
Xdg  == {"unset", "empty", "abs", "spaces", "rel", "trail"}
Home == {"abs", "other"}
Absolute == {"abs", "spaces", "bytes", "trail", "dots", "root", "other"}

VARIABLES burn, xdg, home, model, done
vars == <<burn, xdg, home, model, done>>

\* The base, as a sequence of symbolic path parts.
Base == IF burn \notin {"unset", "empty"} THEN <<"BURN:" \o burn>>
        ELSE IF xdg \in Absolute THEN <<"XDG:" \o xdg, "burn-onnx">>
        ELSE <<"HOME:" \o home, ".cache", "burn-onnx">>
Dir(m) == Base \o <<"model-checks", m>>

Init == burn \in Burn /\ xdg \in Xdg /\ home \in Home /\ model = "" /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<burn, xdg, home, model>>
        /\ PrintT("@@" \o ToJson([burn |-> burn, xdg |-> xdg, home |-> home, dirs |-> [m \in Models |-> Dir(m)]]))

\* Different models never share a directory, and no model's directory contains another's.
Distinct == \A m \in Models : \A n \in Models : m # n => Dir(m) # Dir(n)
OneLevel == \A m \in Models : Len(Dir(m)) = Len(Base) + 2
=============================================================================

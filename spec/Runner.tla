------------------------------- MODULE Runner -------------------------------
(* The model-check runner of xtask: which steps of which models it starts, in  *)
(* which order and with which settings, and what it reports (C21).             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Selections,   \* what --model may say; "*" means the option is absent
          FeatureArgs,  \* what --features may say; "*" means the option is absent
          MaxFail,      \* how many steps may fail in one run of all models
          Kinds         \* how a step may fail

M(id, dir, var, val, args, blocked) == [id |-> id, dir |-> dir, var |-> var, val |-> val, args |-> args, blocked |-> blocked]
Plain(id) == M(id, id, "", "", <<>>, FALSE)
Variant(id, dir, var, val, blocked) == M(id, dir, var, val, <<"--model", val>>, blocked)

\* Models with variants in one directory are told apart by an environment variable
\* when built and run, and by an argument when downloaded.
Models == << Plain("silero-vad"), Plain("all-minilm-l6-v2"), Plain("clip-vit-b-32-text"), Plain("clip-vit-b-32-vision"),
             Plain("modernbert-base"), Plain("rf-detr"), Plain("depth-anything-v2"),
             M("albert", "albert", "ALBERT_MODEL", "albert-base-v2", <<>>, FALSE),
             M("yolo", "yolo", "YOLO_MODEL", "yolov8n", <<>>, FALSE),
             Plain("mediapipe-face-detector"),
             Variant("smollm", "smollm", "SMOLLM_MODEL", "smollm-135m", FALSE),
             Variant("smollm2", "smollm", "SMOLLM_MODEL", "smollm2-135m", FALSE),
             Variant("qwen-1.5", "qwen", "QWEN_MODEL", "qwen1.5-0.5b", TRUE),
             Variant("qwen-2.5", "qwen", "QWEN_MODEL", "qwen2.5-0.5b", TRUE),
             Variant("qwen-3", "qwen", "QWEN_MODEL", "qwen3-0.6b", TRUE) >>

StepNames == <<"download", "build", "run">>

Unblocked(m) == ~m.blocked
Selected(sel) == IF sel = "*" THEN SelectSeq(Models, Unblocked)
                 ELSE LET Is(m) == m.id = sel IN SelectSeq(Models, Is)
Known(sel) == sel = "*" \/ Selected(sel) # <<>>

Steps(step) == IF step \in {"none", "all"} THEN StepNames ELSE <<step>>

\* The process of one step.
Process(c, m, s) ==
  IF s = "download" THEN [tool |-> "uv", dir |-> m.dir, verb |-> "get_model.py", args |-> m.args, features |-> "", release |-> FALSE, var |-> "", val |-> ""]
  ELSE [tool |-> "cargo", dir |-> m.dir, verb |-> s, args |-> <<>>, features |-> IF c.features = "*" THEN "ndarray" ELSE c.features,
        release |-> ~c.debug, var |-> m.var, val |-> m.val]

VARIABLES cfg, queue, todo, started, outcomes, failed, result
vars == <<cfg, queue, todo, started, outcomes, failed, result>>

Init ==
  /\ cfg \in [sel : Selections, step : {"none", "download", "build", "run", "all"}, features : FeatureArgs, debug : BOOLEAN, failfast : BOOLEAN]
  /\ queue = Selected(cfg.sel)
  /\ todo = Steps(cfg.step)
  /\ started = <<>> /\ outcomes = <<>> /\ failed = <<>>
  /\ result = IF Known(cfg.sel) THEN "running" ELSE "error"

NextModel == /\ queue' = Tail(queue) /\ todo' = Steps(cfg.step)
             /\ result' = IF Len(queue) = 1 THEN (IF failed' = <<>> THEN "ok" ELSE "error") ELSE "running"

\* In runs of all models the number of failures is bounded; fewer settings are crossed with more failures.
MayFail == IF cfg.sel # "*" THEN TRUE
           ELSE Len(failed) < (IF cfg.failfast \/ cfg.debug \/ cfg.features # "*" THEN 1 ELSE MaxFail)

StepOk ==
  /\ result = "running"
  /\ started' = Append(started, Process(cfg, Head(queue), Head(todo)))
  /\ outcomes' = Append(outcomes, "0")
  /\ failed' = failed
  /\ IF Len(todo) > 1 THEN todo' = Tail(todo) /\ UNCHANGED <<queue, result>> ELSE NextModel
  /\ UNCHANGED cfg

StepFails ==
  /\ result = "running" /\ MayFail
  /\ started' = Append(started, Process(cfg, Head(queue), Head(todo)))
  /\ \E k \in Kinds : outcomes' = Append(outcomes, k)
  /\ failed' = Append(failed, Head(queue).id)
  /\ IF cfg.failfast THEN result' = "error" /\ UNCHANGED <<queue, todo>> ELSE NextModel
  /\ UNCHANGED cfg

Next == StepOk \/ StepFails

------------------------------------------------------------------------------
Done == result # "running"
\* What the specification itself has to satisfy.
Succeeds == Done /\ Known(cfg.sel) => ((result = "ok") <=> (\A i \in DOMAIN outcomes : outcomes[i] = "0"))
NothingUnknown == ~Known(cfg.sel) => result = "error" /\ started = <<>>
Complete == result = "ok" => Len(started) = Len(Selected(cfg.sel)) * Len(Steps(cfg.step))
FailFast == cfg.failfast => Len(failed) <= 1
OncePerModel == \A i, j \in DOMAIN failed : failed[i] = failed[j] => i = j
BlockedOnlyByName == cfg.sel = "*" => \A i \in DOMAIN started : started[i].dir # "qwen"

Emit == Done => PrintT("@@" \o ToJson([cfg |-> cfg, started |-> started, outcomes |-> outcomes, failed |-> failed, result |-> result]))
=============================================================================

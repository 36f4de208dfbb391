------------------------------ MODULE RuleFiles ------------------------------
(* What reading each of the rule files gives, written for TraceSimp.         *)
EXTENDS RuleText, Json, IOUtils
VARIABLE done
Files == JsonDeserialize(IOEnv.FILES)
Init == done = [f \in DOMAIN Files |-> ReadRules(Files[f], 7)]
Next == UNCHANGED done
Written == JsonSerialize(IOEnv.LOADED, done)
=============================================================================

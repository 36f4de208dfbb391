----------------------------- MODULE Derivatives -----------------------------
(* What the derivatives in the trees of a file are, written to a file.       *)
EXTENDS Derive, Json, IOUtils
VARIABLE pos
Trees == JsonDeserialize(IOEnv.TREES)
M == Len(Trees)
Init == pos \in 1..MinOf(64, M)
Next == pos + 64 <= M /\ pos' = pos + 64
Shown == LET d == Oracle(Trees[pos]) IN PrintT("DERIV " \o ToString(pos) \o " " \o (IF d = <<>> THEN "none" ELSE ToJson(d[1])))
=============================================================================

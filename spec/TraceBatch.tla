----------------------------- MODULE TraceBatch ------------------------------
(* Records of runs of the program: [args, stdin, files, status, out, err]     *)
EXTENDS Batch, TraceBase
Follow(r) ==
  LET w == Program([f \in DOMAIN r.files |-> LinesOf(r.files[f])], r.args, r.stdin) IN
  IF ~w.sure THEN ""
  ELSE IF w.status # r.status THEN "should exit with " \o ToString(w.status)
  ELSE IF w.out # UText /\ w.out # r.out THEN "should print " \o ToJson(w.out)
  ELSE IF w.err # UText /\ w.err # r.err THEN "should report " \o ToJson(w.err)
  ELSE ""
Judge == Report(Follow(Recs[pos]))
=============================================================================

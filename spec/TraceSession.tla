---------------------------- MODULE TraceSession -----------------------------
(* Records of real sessions: [inter, lines, files, r]                         *)
(* r[i] = [ok, out, err] is what line i did (escape sequences removed).       *)
(* ASPECT: "out" (success and standard output), "err" (standard error too),   *)
(* "help" (what help shows besides)                                           *)
EXTENDS Help, TraceBase
Aspect == IOEnv.ASPECT
\* what reading the rule files gives, under "rules:" and their names
Loaded == IF "LOADED" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.LOADED) ELSE [f \in {} |-> 0]

\* the error text matters: everywhere / as to whether there is any
ErrOk(want, got) == IF Aspect = "err" THEN want = UText \/ want = got
                    ELSE IF Aspect = "fail" THEN want = UText \/ ((want = "") = (got = ""))
                    ELSE TRUE
RECURSIVE Follow(_, _, _)
Follow(r, s, i) ==
  IF i > Len(r.lines)      \* listing: the definitions that were entered again have to be listed in the end
  THEN IF "listing" \notin DOMAIN r \/ (s.sure /\ Block(LinesIn(r.r[i - 1].out), Len(Headings(LinesIn(r.r[i - 1].out)))) = r.listing) THEN ""
       ELSE "the definitions should be listed as they were"
  ELSE LET w == Exec(r.files @@ Loaded, r.inter = 1, s, r.lines[i])
           g == r.r[i]
       IN IF ~w.s.sure THEN ""
          ELSE IF w.ok # (g.ok = 1) THEN "line " \o ToString(i) \o " should " \o (IF w.ok THEN "succeed" ELSE "fail")
          ELSE IF w.out # UText /\ w.out # g.out
          THEN "line " \o ToString(i) \o " should print " \o ToJson(w.out)
          ELSE IF Aspect = "help" /\ r.lines[i] = "help" /\ HelpBad(s, g.out) # ""
          THEN "line " \o ToString(i) \o ": " \o HelpBad(s, g.out)
          ELSE IF Aspect = "help" /\ r.lines[i] = "help operators" /\ OpsBad(s, g.out) # ""
          THEN "line " \o ToString(i) \o ": " \o OpsBad(s, g.out)
          ELSE IF ~ErrOk(w.err, g.err)
          THEN "line " \o ToString(i) \o " should report " \o ToJson(w.err)
          ELSE Follow(r, w.s, i + 1)
Judge == Report(Follow(Recs[pos], S0, 1))
=============================================================================

------------------------------ MODULE AmrTrace ------------------------------
(* Checks recorded operations of the real solvers against Amr. *)
EXTENDS Amr, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, l, a, bad
vars == <<tid, l, a, bad>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

Init ==
  /\ tid \in DOMAIN Traces
  /\ l = 1 /\ bad = {}
  /\ LET c == Traces[tid].cfg IN
     a = [InitialState(c) EXCEPT !.U = [k \in Levels(c) |-> c.U[k+1]], !.C = [k \in Levels(c) |-> c.C[k+1]]]

\* the stable step of the hierarchy: e.val, from the table e.tab[level+1][dir+1]
\* (and e.src[level+1] of a source term) at the time of the query
Hsdt(cfg, e) ==
  MinSet({(IF cfg.sub THEN TotalRatio(cfg, k) ELSE 1) * e.tab[k+1][d+1] : k \in 0..(a.n - 1), d \in Dirs(cfg)}
         \cup (IF cfg.source THEN {(IF cfg.sub THEN TotalRatio(cfg, k) ELSE 1) * e.src[k+1] : k \in 0..(a.n - 1)} ELSE {}))

Step(b, n) == bad' = bad \cup b /\ a' = n
Groups == {"C04", "C05", "C06", "C07", "C08", "C10"}

\* hierarchy-wide hooks, called around the step by the driver
Next ==
  /\ l <= Len(Ev)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev[l] c == Cfg IN
     CASE e.a = "begin"   -> Step(BeginBad(c, a, e), BeginDo(c, a, e))
       [] e.a = "pre"     -> Step(PreLevelBad(c, a, e), PreLevelDo(c, a, e))
       [] e.a = "post"    -> Step(PostLevelBad(c, a, e), PostLevelDo(c, a, e))
       [] e.a = "end"     -> Step(EndBad(c, a, e), EndDo(c, a, e))
       [] e.a = "restore" -> /\ bad' = bad    \* back to the state kept before the last step
                             /\ a' = [InitialState(c) EXCEPT !.n = e.n, !.cyc = e.cyc,
                                        !.U = [k \in Levels(c) |-> e.U[k+1]], !.C = [k \in Levels(c) |-> e.C[k+1]],
                                        !.t = [k \in Levels(c) |-> e.t[k+1]], !.gfill = [k \in Levels(c) |-> e.t[k+1]]]
       [] e.a = "fill"    -> Step(FillBad(c, a, e), FillDo(c, a, e))
       [] e.a = "bc"      -> Step(BoundaryBad(c, a, e), BoundaryDo(c, a, e))
       [] e.a = "split"   -> Step(PreSplitBad(c, a, e), PreSplitDo(c, a, e))
       [] e.a = "stable"  -> Step({}, StableDo(c, a, e))
       [] e.a = "flux"    -> Step(FluxBad(c, a, e), FluxDo(c, a, e))
       [] e.a = "update"  -> Step(UpdateBad(c, a, e), UpdateDo(c, a, e))
       [] e.a = "complete"-> Step(CompleteBad(c, a, e), CompleteDo(c, a, e))
       [] e.a = "reset"   -> Step(ResetBad(c, a, e), ResetDo(c, a, e))
       [] e.a = "accum"   -> Step(AccumBad(c, a, e), AccumDo(c, a, e))
       [] e.a = "correct" -> Step(CorrectBad(c, a, e), CorrectDo(c, a, e))
       [] e.a = "coarsen" -> Step(CoarsenBad(c, a, e), CoarsenDo(c, a, e))
       [] e.a = "copy"    -> Step(CopyBad(c, a, e), CopyDo(c, a, e))
       [] e.a = "source"  -> Step(SourceBad(c, a, e), SourceDo(c, a, e))
       [] e.a = "shook"   -> Step(SourceHookBad(c, a, e), SourceHookDo(c, a, e))
       [] e.a = "hsdt"    -> Step(Cl("C08", "the stable step of the hierarchy is not the minimum over its levels and directions",
                                     e.val = Hsdt(c, e)), a)
       [] e.a = "hooks"   -> Step(Cl("C10", "hierarchy-wide hooks are not passed on once, with the step",
                                     e.sys = 1 /\ e.dt = e.want /\ (c.source => e.src = 1)), a)
       [] OTHER           -> /\ bad' = bad \cup {<<p, "crash, hang or runaway: " \o e.a>> : p \in Groups}
                             /\ UNCHANGED a

Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================

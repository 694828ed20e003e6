-------------------------------- MODULE MCAmr --------------------------------
(* All sequences of operations that the step contract of Amr allows, for     *)
(* small hierarchies: the operations' local rules imply the global ones      *)
(* (conservation of mass, synchronization of all levels).                    *)
EXTENDS Amr, TLC

CONSTANTS Configs, Dt, MaxSteps, OutFluxes, InFluxes, MaxFails, Regrids

NR == [k \in 1..3 |-> 2]
Cf(L, D, sub, n0, src) == [L |-> L, D |-> D, sub |-> sub, ratio |-> NR, n0 |-> n0, freq |-> 1, source |-> src]
Deep == {Cf(3, 1, TRUE, 3, FALSE), Cf(3, 1, FALSE, 3, FALSE)}
Wide == {Cf(2, 2, s, n, FALSE) : s \in BOOLEAN, n \in {1, 2}}
Srcs == {Cf(2, 1, s, 2, TRUE) : s \in BOOLEAN}
Cube == {Cf(2, 3, s, 2, FALSE) : s \in BOOLEAN}
Small == {Cf(2, 1, s, n, FALSE) : s \in BOOLEAN, n \in {1, 2}} \cup {Cf(2, 2, s, 2, FALSE) : s \in BOOLEAN} \cup {Cf(2, 1, TRUE, 2, TRUE)}
AllSmall == Deep \cup Wide \cup Srcs

VARIABLES cfg, a, steps, last, fails, mass
vars == <<cfg, a, steps, last, fails, mass>>

Init ==
  /\ cfg \in Configs
  /\ a = [InitialState(cfg) EXCEPT !.U = [k \in Levels(cfg) |-> IF k < cfg.n0 THEN 2 ELSE 0],
            !.C = [k \in Levels(cfg) |-> IF k + 1 < cfg.n0 THEN 2 * (cfg.n0 - 1 - k) ELSE 0]]
  /\ steps = 0 /\ last = "init" /\ fails = 0
  /\ mass = 2 * cfg.n0

Lvs == {k \in Levels(cfg) : k < a.n}
Ok(bad) == bad = {}

Begin == /\ a.hdt = 0 /\ steps < MaxSteps
         /\ a' = BeginDo(cfg, a, [dt |-> Dt]) /\ steps' = steps + 1 /\ last' = "begin"
         /\ UNCHANGED <<cfg, fails, mass>>

\* regrids that conserve mass
PreEvents(k, dt) ==
  LET same == [lev |-> k, dt |-> dt, i |-> IF cfg.sub /\ k > 0 THEN a.done[k] ELSE 0,
               m |-> IF cfg.sub /\ k > 0 THEN Ratio(cfg, k) ELSE 1,
               r |-> cfg.L, n |-> a.n,
               U |-> [j \in 1..cfg.L |-> a.U[j-1]], C |-> [j \in 1..cfg.L |-> a.C[j-1]]]
      add == IF Regrids /\ a.n = k + 1 /\ k + 1 < cfg.L /\ same.i = 0 /\ a.done[k+1] = 0
             THEN {[same EXCEPT !.r = k + 1, !.n = k + 2, !.U[k+1] = @ - 1, !.C[k+1] = @ + 1,
                                !.U[k+2] = a.C[k] + 1, !.C[k+2] = 0]} ELSE {}
      del == IF Regrids /\ a.n = k + 2 /\ same.i = 0
             THEN {[same EXCEPT !.r = k + 1, !.n = k + 1, !.U[k+2] = 0, !.C[k+2] = 0]} ELSE {}
  IN {same} \cup add \cup del

PreLevel ==
  \E k \in Lvs : \E dt \in {IF k = 0 THEN a.hdt ELSE a.dt[k-1] \div Ratio(cfg, k)} : \E e \in PreEvents(k, dt) :
     /\ a.hdt > 0 /\ (k = 0 => last = "begin")
     /\ Ok(PreLevelBad(cfg, a, e))
     /\ a' = PreLevelDo(cfg, a, e) /\ last' = "pre" /\ UNCHANGED <<cfg, steps, fails, mass>>

Reset ==
  \E k \in Lvs : LET e == [lev |-> k, from |-> k - 1] IN
     /\ k > 0 /\ a.on[k-1] /\ ~a.open[k] /\ Ok(ResetBad(cfg, a, e))
     /\ a' = ResetDo(cfg, a, e) /\ last' = "reset" /\ UNCHANGED <<cfg, steps, fails, mass>>

Fill ==
  \E k \in Lvs : LET e == [lev |-> k, from |-> k - 1] IN
     /\ a.hdt > 0
     /\ a.regr[k] \/ a.gfill[k] # a.t[k] \/ (a.done[0] = 1 /\ ~a.fin[k]) \/ (~cfg.sub /\ a.copy[k] /\ ~a.fin[k])
     /\ Ok(FillBad(cfg, a, e))
     /\ a' = FillDo(cfg, a, e) /\ last' = "fill" /\ UNCHANGED <<cfg, steps, fails, mass>>

Boundary ==
  \E k \in Lvs, d \in Dirs(cfg) :
     /\ a.on[k] /\ d \notin a.bnd[k] /\ a.cnt[k][d] > 0 /\ a.comp[k] /\ ~(a.sw[k].fl /\ ~a.sw[k].up)
     /\ a' = BoundaryDo(cfg, a, [lev |-> k, dir |-> d]) /\ last' = "bc" /\ UNCHANGED <<cfg, steps, fails, mass>>

PreSplit ==
  \E k \in Lvs, d \in Dirs(cfg), h \in {1, 2} : LET e == [lev |-> k, dir |-> d, dt |-> a.dt[k] \div h, i |-> IF \E c \in Dirs(cfg) : a.prog[k][c] # 0 THEN a.idx[k] ELSE 0] IN
     /\ a.on[k] /\ a.dt[k] % h = 0
     /\ ~(a.sw[k].on /\ ~(a.sw[k].up /\ a.sw[k].ac)) /\ ~(\E c \in Dirs(cfg) : a.prog[k][c] > 0) => e.i = 0
     /\ Ok(PreSplitBad(cfg, a, e))
     /\ a' = PreSplitDo(cfg, a, e) /\ last' = "split" /\ UNCHANGED <<cfg, steps, fails, mass>>

Stable ==
  \E k \in Lvs, ok \in BOOLEAN : LET e == [lev |-> k, dir |-> a.sw[k].dir, val |-> IF ok THEN a.sw[k].dt ELSE 0] IN
     /\ a.sw[k].on /\ a.sw[k].chk = 0 /\ ~a.sw[k].up /\ a.cause.lev < 0
     /\ ~ok => fails < MaxFails
     /\ fails' = IF ok THEN fails ELSE fails + 1
     /\ a' = StableDo(cfg, a, e) /\ last' = "stable" /\ UNCHANGED <<cfg, steps, mass>>

Flux ==
  \E k \in Lvs, f \in OutFluxes, g \in InFluxes : LET e == [lev |-> k, dir |-> a.sw[k].dir, dt |-> a.sw[k].dt, f |-> f, g |-> g] IN
     /\ (~Exists(a, k+1) => f = MinSet(OutFluxes)) /\ (k = 0 => g = MinSet(InFluxes))
     /\ a.sw[k].on /\ ~a.sw[k].fl /\ Ok(FluxBad(cfg, a, e))
     /\ a' = FluxDo(cfg, a, e) /\ last' = "flux" /\ UNCHANGED <<cfg, steps, fails, mass>>

Update ==
  \E k \in Lvs : LET e == [lev |-> k, dir |-> a.sw[k].dir, dt |-> a.sw[k].dt] IN
     /\ Ok(UpdateBad(cfg, a, e))
     /\ a' = UpdateDo(cfg, a, e) /\ last' = "update" /\ UNCHANGED <<cfg, steps, fails, mass>>

Accum ==
  \E k \in Lvs : LET e == [lev |-> k, dir |-> a.sw[k].dir, dt |-> a.sw[k].dt] IN
     /\ Ok(AccumBad(cfg, a, e))
     /\ a' = AccumDo(cfg, a, e) /\ last' = "accum" /\ UNCHANGED <<cfg, steps, fails, mass>>

Complete ==
  \E k \in Lvs : LET e == [lev |-> k, dt |-> a.dt[k]] IN
     /\ ~a.comp[k] /\ Ok(CompleteBad(cfg, a, e))
     /\ a' = CompleteDo(cfg, a, e) /\ last' = "complete" /\ UNCHANGED <<cfg, steps, fails, mass>>

Correct ==
  \E k \in Lvs : LET e == [lev |-> k + 1, from |-> k, dt |-> a.dt[k]] IN
     /\ (cfg.source => a.src[k] = a.dt[k])   \* else the source term had no place left
     /\ Ok(CorrectBad(cfg, a, e))
     /\ a' = CorrectDo(cfg, a, e) /\ last' = "correct" /\ UNCHANGED <<cfg, steps, fails, mass>>

Coarsen ==
  \E k \in Lvs : LET e == [lev |-> k + 1, from |-> k] IN
     /\ ~a.coars[k] /\ (cfg.source => a.src[k] = a.dt[k]) /\ Ok(CoarsenBad(cfg, a, e))
     /\ a' = CoarsenDo(cfg, a, e) /\ last' = "coarsen" /\ UNCHANGED <<cfg, steps, fails, mass>>

Copy ==
  \E k \in Lvs : LET e == [lev |-> k] IN
     /\ ~a.copy[k] /\ Ok(CopyBad(cfg, a, e))
     /\ a' = CopyDo(cfg, a, e) /\ last' = "copy" /\ UNCHANGED <<cfg, steps, fails, mass>>

Source ==
  \E k \in Lvs, h \in {1, 2}, ok \in BOOLEAN : LET e == [lev |-> k, dt |-> a.dt[k] \div h, ok |-> ok, err |-> 1] IN
     /\ cfg.source /\ a.dt[k] % h = 0 /\ (~ok => fails < MaxFails)
     /\ Ok(SourceBad(cfg, a, e))
     /\ fails' = IF ok THEN fails ELSE fails + 1
     /\ a' = SourceDo(cfg, a, e) /\ last' = "source" /\ UNCHANGED <<cfg, steps, mass>>

Hook ==
  \E k \in Lvs, w \in {"pre", "post"} : LET e == [lev |-> k, dt |-> a.dt[k], i |-> a.i[k], m |-> a.m[k], ok |-> TRUE, w |-> w] IN
     /\ cfg.source /\ a.on[k] /\ IF w = "pre" THEN a.spre[k] = 0 ELSE (a.copy[k] /\ a.spost[k] = 0)
     /\ Ok(SourceHookBad(cfg, a, e))
     /\ a' = SourceHookDo(cfg, a, e) /\ last' = "hook" /\ UNCHANGED <<cfg, steps, fails, mass>>

PostLevel ==
  \E k \in Lvs, ok \in BOOLEAN : LET e == [lev |-> k, dt |-> a.dt[k], i |-> a.i[k], m |-> a.m[k], ok |-> ok, err |-> 1] IN
     /\ (cfg.source => a.spost[k] = 1)
     /\ Ok(PostLevelBad(cfg, a, e)) /\ (~ok => fails < MaxFails)
     /\ fails' = IF ok THEN fails ELSE fails + 1
     /\ a' = PostLevelDo(cfg, a, e) /\ last' = "post" /\ UNCHANGED <<cfg, steps, mass>>

\* a finished hierarchy step is enabled without the clauses that have to follow
Implied == {"the step changes the total conserved mass", "a level is not at the time of the hierarchy"}
End ==
  LET e == [ok |-> TRUE, err |-> 0, lev |-> 0] IN
     /\ a.hdt > 0 /\ a.done[0] = 1
     /\ {c \in EndBad(cfg, a, e) : c[2] \notin Implied} = {}
     /\ a' = EndDo(cfg, a, e) /\ last' = "end" /\ UNCHANGED <<cfg, steps, fails, mass>>
Fail ==
  /\ a.hdt > 0 /\ a.cause.lev >= 0
  /\ last' = "failed" /\ a' = [a EXCEPT !.hdt = 0] /\ steps' = MaxSteps
  /\ UNCHANGED <<cfg, fails, mass>>

Next == Begin \/ PreLevel \/ Reset \/ Fill \/ Boundary \/ PreSplit \/ Stable \/ Flux \/ Update \/ Accum
        \/ Complete \/ Correct \/ Coarsen \/ Copy \/ Source \/ Hook \/ PostLevel \/ End \/ Fail
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Conservation == last = "end" => Total(a) = mass
Synchronized == last = "end" => \A k \in Lvs : a.t[k] = a.t[0] /\ ~a.on[k]
CoveredIsFiner == last = "end" => \A k \in Lvs : Exists(a, k+1) => a.C[k] = a.U[k+1] + a.C[k+1]
EverythingAdvanced == last = "end" => a.t[0] = steps * Dt
NoOvertaking == \A k \in Lvs : (k > 0 /\ a.on[k-1]) => a.t[k] <= a.t[k-1] + a.dt[k-1]
\* a step can always go on or be given up, never end in the middle
NoDeadEnd == (a.hdt > 0) => ENABLED Next
=============================================================================

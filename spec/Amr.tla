--------------------------------- MODULE Amr ---------------------------------
(* One time step of a hierarchy of refinement levels, at the granularity of  *)
(* the operations on the grid data: level steps, directional sweeps, fluxes, *)
(* conservative updates, coarse-fine flux registers, coarsening, completion  *)
(* of states, ghost cells, source terms and failures.                        *)
(*                                                                           *)
(* Levels are 0..cfg.L-1, level 0 is the coarsest.  Time is an integer.  The *)
(* conserved mass of level k is U[k] outside and C[k] under level k+1; flux  *)
(* f of a sweep on level k moves mass from U[k] to C[k], flux g moves mass   *)
(* into level k from outside of it (from U[k-1]).                            *)
(*                                                                           *)
(* XyzBad(cfg, a, e) is the set of clauses <<property, text>> broken by an   *)
(* operation e in state a - empty if the operation is allowed - and          *)
(* XyzDo(cfg, a, e) its effect.  Only orders that matter are constrained.    *)
(* MCAmr explores all operations in all allowed orders; AmrTrace evaluates   *)
(* the same operators on the operations the real solvers perform.            *)
EXTENDS Integers, Sequences, FiniteSets

Cl(p, name, ok) == IF ok THEN {} ELSE {<<p, name>>}
Levels(cfg) == 0..(cfg.L - 1)
Dirs(cfg) == 0..(cfg.D - 1)
Lv(cfg) == IF cfg.sub THEN "C04" ELSE "C06"
Exists(a, k) == k >= 0 /\ k < a.n
Ratio(cfg, k) == IF cfg.sub THEN cfg.ratio[k] ELSE 1   \* of level k to k-1, k >= 1

TotalRatio(cfg, k) ==
  LET F[j \in 0..k] == IF j = 0 THEN 1 ELSE cfg.ratio[j] * F[j-1] IN F[k]
SumSet(f, S) ==
  LET RECURSIVE Sm(_)
      Sm(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + Sm(T \ {x})
  IN Sm(S)
Total(a) == SumSet(a.U, 0..(a.n - 1)) + a.C[a.n - 1]
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

NoSweep == [on |-> FALSE, dir |-> 0, dt |-> 0, chk |-> 0, fl |-> FALSE, up |-> FALSE,
            ac |-> FALSE, f |-> 0, g |-> 0]
NoCause == [lev |-> -1, dt |-> 0, src |-> FALSE]

InitialState(cfg) ==
  [n     |-> cfg.n0,
   t     |-> [k \in Levels(cfg) |-> 0],
   U     |-> [k \in Levels(cfg) |-> 0],
   C     |-> [k \in Levels(cfg) |-> 0],
   reg   |-> [k \in Levels(cfg) |-> 0],       \* register between k-1 and k
   open  |-> [k \in Levels(cfg) |-> FALSE],   \* it belongs to the current step of k-1
   held  |-> [k \in Levels(cfg) |-> FALSE],   \* it holds fluxes of that step
   on    |-> [k \in Levels(cfg) |-> FALSE],   \* in a level step
   dt    |-> [k \in Levels(cfg) |-> 0],
   i     |-> [k \in Levels(cfg) |-> 0],
   m     |-> [k \in Levels(cfg) |-> 1],
   done  |-> [k \in Levels(cfg) |-> 0],       \* finished steps of k within the step of k-1
   prog  |-> [k \in Levels(cfg) |-> [d \in Dirs(cfg) |-> 0]],
   cnt   |-> [k \in Levels(cfg) |-> [d \in Dirs(cfg) |-> 0]],  \* sweeps in this pass
   idx   |-> [k \in Levels(cfg) |-> 0],       \* sweeps in this pass, all directions
   sw    |-> [k \in Levels(cfg) |-> NoSweep],
   comp  |-> [k \in Levels(cfg) |-> TRUE],    \* complete state matches the conserved one
   bnd   |-> [k \in Levels(cfg) |-> {}],      \* directions with fresh physical boundary
   regr  |-> [k \in Levels(cfg) |-> FALSE],   \* regridded, ghost cells not filled since
   gfill |-> [k \in Levels(cfg) |-> 0],       \* time of the last ghost cell filling
   fin   |-> [k \in Levels(cfg) |-> FALSE],   \* ghost cells filled after the step's result
   corr  |-> [k \in Levels(cfg) |-> FALSE],
   coars |-> [k \in Levels(cfg) |-> FALSE],
   copy  |-> [k \in Levels(cfg) |-> FALSE],
   src   |-> [k \in Levels(cfg) |-> 0],
   spre  |-> [k \in Levels(cfg) |-> 0],
   spost |-> [k \in Levels(cfg) |-> 0],
   cyc   |-> 0,
   hdt   |-> 0,           \* hierarchy step under way (0: none)
   mass0 |-> 0, t0 |-> 0,
   cause |-> NoCause]     \* of a failure

Cond(x, y, z) == IF x THEN y ELSE z

(* ------------------------- hierarchy and level steps --------------------- *)
BeginBad(cfg, a, e) == {}
BeginDo(cfg, a, e) ==
  [a EXCEPT !.hdt = e.dt, !.mass0 = Total(a), !.t0 = a.t[0], !.cause = NoCause,
            !.done = [@ EXCEPT ![0] = 0],
            !.fin = [k \in Levels(cfg) |-> FALSE]]

Alive(cfg, a) ==
  Cl("C08", "continues although a level reported a too large step", a.cause.lev < 0) \cup
  Cl("C10", "continues although the source term reported a too large step", ~a.cause.src)

SweepsDone(cfg, a, k) ==
  /\ \A d \in Dirs(cfg) : a.prog[k][d] = a.dt[k]
  /\ a.sw[k].on => (a.sw[k].up /\ a.sw[k].ac)
\* all steps of the next finer level within the step of level k are finished
FinerDone(cfg, a, k) == Exists(a, k+1) => (~a.on[k+1] /\ a.t[k+1] = a.t[k] + a.dt[k] /\ a.done[k+1] > 0)

PreLevelBad(cfg, a, e) ==
  LET k == e.lev IN
  Alive(cfg, a) \cup
  Cl(Lv(cfg), "a level step starts inside another one of the same level", ~a.on[k]) \cup
  Cl(Lv(cfg), "steps a level that does not exist", Exists(a, k)) \cup
  (IF k = 0 THEN
     Cl(Lv(cfg), "the coarsest level takes another step size than the hierarchy", e.dt = a.hdt /\ a.hdt > 0) \cup
     Cl(Lv(cfg), "the coarsest level is stepped more than once", a.done[0] = 0) \cup
     Cl(Lv(cfg), "wrong substep number", e.i = 0 /\ e.m = 1)
   ELSE
     Cl(Lv(cfg), "a finer level is stepped outside of its coarser level's step", a.on[k-1]) \cup
     Cl(Lv(cfg), "the step of a finer level is not its share of the coarser step",
        e.dt * Ratio(cfg, k) = a.dt[k-1]) \cup
     Cl(Lv(cfg), "a finer level starts a step at a wrong time", a.t[k] = a.t[k-1] + a.done[k] * e.dt) \cup
     Cl(Lv(cfg), "a finer level is stepped too often", a.done[k] < Ratio(cfg, k)) \cup
     Cl(Lv(cfg), "wrong substep number", e.i = (IF cfg.sub THEN a.done[k] ELSE 0)
                                          /\ e.m = (IF cfg.sub THEN Ratio(cfg, k) ELSE 1)) \cup
     Cl(Lv(cfg), "the coarser level is advanced before the finer one",
        a.idx[k-1] = 0 /\ \A d \in Dirs(cfg) : a.prog[k-1][d] = 0))

\* e.r: first regridded level (cfg.L: none); e.n levels afterwards; e.U, e.C masses
PreLevelDo(cfg, a, e) ==
  LET k == e.lev
      Re(j) == j >= e.r
      b == [a EXCEPT
        !.n = e.n,
        !.U = [j \in Levels(cfg) |-> e.U[j+1]], !.C = [j \in Levels(cfg) |-> e.C[j+1]],
        !.t = [j \in Levels(cfg) |-> IF Re(j) THEN a.t[k] ELSE a.t[j]],
        !.open = [j \in Levels(cfg) |-> a.open[j] /\ ~Re(j)],
        !.regr = [j \in Levels(cfg) |-> a.regr[j] \/ (Re(j) /\ j < e.n)],
        !.comp = [j \in Levels(cfg) |-> a.comp[j] \/ Re(j)]]
  IN [b EXCEPT
        !.on[k] = TRUE, !.dt[k] = e.dt, !.i[k] = e.i, !.m[k] = e.m,
        !.prog[k] = [d \in Dirs(cfg) |-> 0], !.cnt[k] = [d \in Dirs(cfg) |-> 0],
        !.idx[k] = 0, !.sw[k] = NoSweep, !.corr[k] = FALSE, !.coars[k] = FALSE, !.copy[k] = FALSE,
        !.bnd[k] = {}, !.src[k] = 0, !.spre[k] = 0, !.spost[k] = 0, !.fin[k] = FALSE,
        !.done = [j \in Levels(cfg) |-> IF j = k + 1 THEN 0 ELSE a.done[j]],
        \* registers to the next finer level have to be reset in this step
        !.open = [j \in Levels(cfg) |-> b.open[j] /\ j # k + 1],
        !.held = [j \in Levels(cfg) |-> b.held[j] /\ j # k + 1]]

PostLevelBad(cfg, a, e) ==
  LET k == e.lev IN
  Alive(cfg, a) \cup
  Cl(Lv(cfg), "finishes a level step that is not under way",
     a.on[k] /\ e.dt = a.dt[k] /\ e.i = a.i[k] /\ e.m = a.m[k]) \cup
  Cl(Lv(cfg), "finishes a level step before the finer level has caught up", FinerDone(cfg, a, k)) \cup
  Cl("C07", "finishes a level step before every direction was advanced by it", SweepsDone(cfg, a, k)) \cup
  Cl(Lv(cfg), "the result of a level step is not stored", a.copy[k]) \cup
  Cl("C10", "finishes a level step without advancing the source term by it", cfg.source => a.src[k] = a.dt[k]) \cup
  Cl("C10", "the source term's hooks are not called once per level step",
     cfg.source => a.spre[k] = 1 /\ a.spost[k] <= 1)

\* e.ok = FALSE: this hook reports a too large step, e.err is the level's new step
PostLevelDo(cfg, a, e) ==
  LET k == e.lev IN
  IF ~e.ok THEN [a EXCEPT !.cause = [lev |-> k, dt |-> e.err, src |-> FALSE]]
  ELSE [a EXCEPT !.on[k] = FALSE, !.t[k] = @ + a.dt[k], !.done[k] = @ + 1,
                 !.cyc = IF k = 0 THEN @ + 1 ELSE @]

EndBad(cfg, a, e) ==
  IF e.ok THEN
    Alive(cfg, a) \cup
    Cl(Lv(cfg), "the step ends although a level step is under way", \A k \in Levels(cfg) : ~a.on[k]) \cup
    Cl(Lv(cfg), "a level is not at the time of the hierarchy",
       \A k \in 0..(a.n - 1) : a.t[k] = a.t0 + a.hdt) \cup
    Cl(Lv(cfg), "ghost cells are not refreshed at the end of the step",
       (~cfg.sub \/ a.cyc % cfg.freq = 0) => \A k \in 0..(a.n - 1) : a.fin[k]) \cup
    Cl("C10", "the source term's hooks are not called once per level step",
       cfg.source => \A k \in 0..(a.n - 1) : a.spost[k] = 1) \cup
    Cl("C05", "the step changes the total conserved mass", Total(a) = a.mass0)
  ELSE
    Cl("C08", "a step fails without cause", a.cause.lev >= 0) \cup
    Cl("C08", "the reported step is not the failing level's step in units of the coarsest level",
       a.cause.lev >= 0 => e.err = a.cause.dt * (IF cfg.sub THEN TotalRatio(cfg, a.cause.lev) ELSE 1)) \cup
    Cl("C08", "the reported level is not the coarsest one", cfg.sub => e.lev = 0)
EndDo(cfg, a, e) == [a EXCEPT !.hdt = 0, !.cause = NoCause]

(* ------------------------------- ghost cells ----------------------------- *)
FillBad(cfg, a, e) ==      \* e.lev, e.from (-1: physical boundary only)
  Alive(cfg, a) \cup
  Cl(Lv(cfg), "ghost cells are filled from a wrong level",
     e.from = e.lev - 1 /\ Exists(a, e.lev)) \cup
  Cl(Lv(cfg), "ghost cells are filled from a regridded level whose own are stale",
     e.from >= 0 => ~a.regr[e.from])
FillDo(cfg, a, e) ==
  [a EXCEPT !.regr[e.lev] = FALSE, !.gfill[e.lev] = a.t[e.lev],
            !.fin[e.lev] = IF cfg.sub THEN (~a.on[e.lev] /\ a.hdt > 0 /\ a.done[0] = 1)
                           ELSE a.copy[e.lev]]
BoundaryBad(cfg, a, e) == Alive(cfg, a)
BoundaryDo(cfg, a, e) == [a EXCEPT !.bnd[e.lev] = @ \cup {e.dir}]

(* ---------------------------- directional sweeps ------------------------- *)
First(cfg, a, k) == (a.cyc + a.i[k]) % 2   \* 0: ascending order of directions

PreSplitBad(cfg, a, e) ==
  LET k == e.lev IN
  Alive(cfg, a) \cup
  Cl("C07", "a sweep starts outside of a level step", a.on[k]) \cup
  Cl("C07", "a sweep starts before the last one is finished",
     a.sw[k].on => (a.sw[k].up /\ a.sw[k].ac /\ a.comp[k])) \cup
  Cl("C07", "sweeps are not numbered consecutively", e.i = a.idx[k] \/ (cfg.source /\ e.i = 0)) \cup
  Cl("C07", "directions are not swept in alternating order",
     \* a direction that is swept for the first time in a pass comes next in order
     (e.i > 0 /\ a.cnt[k][e.dir] > 0)
     \/ \A d \in Dirs(cfg) :
          (IF First(cfg, a, k) = 0 THEN d < e.dir ELSE d > e.dir) <=> (e.i > 0 /\ a.cnt[k][d] > 0)) \cup
  Cl("C07", "a direction is advanced by more than the step", a.prog[k][e.dir] + e.dt <= a.dt[k] /\ e.dt > 0) \cup
  Cl(Lv(cfg), "a level is advanced before the next finer one", FinerDone(cfg, a, k)) \cup
  Cl("C05", "a level is advanced after it was corrected by the finer one", ~a.corr[k] /\ ~a.coars[k])
PreSplitDo(cfg, a, e) ==
  LET k == e.lev
      new == e.i = 0 IN
  [a EXCEPT !.sw[k] = [NoSweep EXCEPT !.on = TRUE, !.dir = e.dir, !.dt = e.dt],
            !.idx[k] = e.i + 1,
            !.cnt[k] = [d \in Dirs(cfg) |-> (IF new THEN 0 ELSE a.cnt[k][d]) + (IF d = e.dir THEN 1 ELSE 0)]]

\* a query of the stable step of one level and direction during a sweep
StableDo(cfg, a, e) ==
  LET k == e.lev IN
  IF a.sw[k].on /\ a.sw[k].dir = e.dir
  THEN [a EXCEPT !.sw[k].chk = e.val,
                 !.cause = IF e.val < a.sw[k].dt /\ ~a.sw[k].up THEN [lev |-> k, dt |-> e.val, src |-> FALSE] ELSE @]
  ELSE a

FluxBad(cfg, a, e) ==
  LET k == e.lev  w == a.sw[k] IN
  Alive(cfg, a) \cup
  Cl("C07", "fluxes are computed for another sweep", w.on /\ w.dir = e.dir /\ w.dt = e.dt) \cup
  Cl("C08", "fluxes are computed before the stable step was checked", w.chk >= e.dt) \cup
  Cl("C07", "fluxes are computed from incomplete states", a.comp[k]) \cup
  Cl("C07", "a repeated sweep uses stale boundary cells",
     a.cnt[k][e.dir] > 1 => e.dir \in a.bnd[k]) \cup
  Cl(Lv(cfg), "fluxes are computed after regridding without refreshing ghost cells", ~a.regr[k]) \cup
  Cl(Lv(cfg), "a later substep uses ghost cells of an earlier one",
     (cfg.sub /\ a.t[k] # a.t[0]) => a.gfill[k] = a.t[k])
FluxDo(cfg, a, e) == [a EXCEPT !.sw[e.lev].fl = TRUE, !.sw[e.lev].f = e.f, !.sw[e.lev].g = e.g]

UpdateBad(cfg, a, e) ==
  LET k == e.lev  w == a.sw[k] IN
  Alive(cfg, a) \cup
  Cl("C07", "a level is updated without fluxes of this sweep", w.on /\ w.dir = e.dir /\ w.dt = e.dt /\ w.fl) \cup
  Cl("C07", "a level is updated twice with the same fluxes", ~w.up)
UpdateDo(cfg, a, e) ==
  LET k == e.lev
      f == IF Exists(a, k+1) THEN e.dt * a.sw[k].f ELSE 0
      g == IF k > 0 THEN e.dt * a.sw[k].g ELSE 0 IN
  [a EXCEPT !.U[k] = @ - f + g, !.C[k] = @ + f, !.comp[k] = FALSE, !.bnd[k] = {},
            !.sw[k].up = TRUE, !.prog[k][e.dir] = @ + e.dt]

CompleteBad(cfg, a, e) == Alive(cfg, a)
CompleteDo(cfg, a, e) == [a EXCEPT !.comp[e.lev] = TRUE, !.bnd[e.lev] = {}]

(* -------------------------- coarse-fine interfaces ----------------------- *)
ResetBad(cfg, a, e) ==
  Alive(cfg, a) \cup
  Cl("C05", "a flux register is reset outside of the coarser level's step",
     e.lev = e.from + 1 /\ a.on[e.from] /\ Exists(a, e.lev)) \cup
  Cl("C05", "a flux register is reset although it holds fluxes of this step",
     ~a.held[e.lev])
ResetDo(cfg, a, e) == [a EXCEPT !.reg[e.lev] = 0, !.open[e.lev] = TRUE]

AccumBad(cfg, a, e) ==
  LET k == e.lev  w == a.sw[k] IN
  Alive(cfg, a) \cup
  Cl("C05", "fluxes are accumulated outside of their sweep", w.on /\ w.dir = e.dir /\ w.fl) \cup
  Cl("C05", "fluxes are accumulated twice", ~w.ac) \cup
  Cl("C05", "fluxes are accumulated with another weight than the step", e.dt = w.dt) \cup
  Cl("C05", "fluxes are accumulated in a register that was not reset",
     (k > 0 => a.open[k]) /\ (Exists(a, k+1) => a.open[k+1]))
AccumDo(cfg, a, e) ==
  LET k == e.lev  w == a.sw[k]
      r1 == IF k > 0 THEN [a.reg EXCEPT ![k] = @ - e.dt * w.g] ELSE a.reg
      r2 == IF Exists(a, k+1) THEN [r1 EXCEPT ![k+1] = @ + e.dt * w.f] ELSE r1
  IN [a EXCEPT !.reg = r2, !.sw[k].ac = TRUE,
               !.held = [j \in Levels(cfg) |-> @[j] \/ (j = k /\ k > 0) \/ (j = k + 1 /\ Exists(a, j))]]

CorrectBad(cfg, a, e) ==
  LET k == e.from IN
  Alive(cfg, a) \cup
  Cl("C05", "a flux correction is applied at the wrong place",
     e.lev = k + 1 /\ Exists(a, e.lev) /\ a.on[k] /\ a.open[e.lev]) \cup
  Cl("C05", "a flux correction is applied twice", ~a.corr[k]) \cup
  Cl("C05", "a flux correction is applied before all fluxes are accumulated",
     FinerDone(cfg, a, k) /\ SweepsDone(cfg, a, k)) \cup
  Cl("C05", "a flux correction uses another step", e.dt = a.dt[k])
CorrectDo(cfg, a, e) ==
  [a EXCEPT !.U[e.from] = @ + a.reg[e.lev], !.corr[e.from] = TRUE, !.comp[e.from] = FALSE]

CoarsenBad(cfg, a, e) ==
  LET k == e.from IN
  Alive(cfg, a) \cup
  Cl("C05", "a level is coarsened to the wrong place", e.lev = k + 1 /\ Exists(a, e.lev) /\ a.on[k]) \cup
  Cl("C05", "a level is coarsened before both levels are advanced",
     FinerDone(cfg, a, k) /\ SweepsDone(cfg, a, k))
CoarsenDo(cfg, a, e) ==
  [a EXCEPT !.C[e.from] = a.U[e.lev] + a.C[e.lev], !.coars[e.from] = TRUE, !.comp[e.from] = FALSE]

CopyBad(cfg, a, e) ==
  LET k == e.lev IN
  Alive(cfg, a) \cup
  Cl(Lv(cfg), "a result is stored outside of a level step", a.on[k]) \cup
  Cl("C07", "a result is stored before every direction was advanced", SweepsDone(cfg, a, k)) \cup
  Cl("C07", "a result with incomplete states is stored", a.comp[k]) \cup
  Cl("C05", "a result is stored without the flux correction", Exists(a, k+1) => a.corr[k]) \cup
  Cl("C05", "a result is stored without the finer level's data", Exists(a, k+1) => a.coars[k]) \cup
  Cl("C10", "a result is stored before the source term was advanced", cfg.source => a.src[k] = a.dt[k])
CopyDo(cfg, a, e) == [a EXCEPT !.copy[e.lev] = TRUE]

(* ------------------------------- source terms ---------------------------- *)
SourceBad(cfg, a, e) ==
  LET k == e.lev IN
  Alive(cfg, a) \cup
  Cl("C10", "the source term is advanced outside of a level step", a.on[k]) \cup
  Cl("C10", "the source term is advanced by more than the step", a.src[k] + e.dt <= a.dt[k] /\ e.dt > 0) \cup
  Cl("C10", "the source term is advanced from incomplete states",
     a.comp[k] /\ (a.sw[k].on => a.sw[k].up)) \cup
  Cl("C10", "the source term is advanced in the middle of the sweeps",
     \A c, d \in Dirs(cfg) : a.prog[k][c] = a.prog[k][d]) \cup
  Cl("C10", "the source term is advanced after the correction", ~a.corr[k] /\ ~a.coars[k]) \cup
  Cl(Lv(cfg), "a level is advanced before the next finer one", FinerDone(cfg, a, k))
SourceDo(cfg, a, e) ==
  LET k == e.lev IN
  IF ~e.ok THEN [a EXCEPT !.cause = [lev |-> k, dt |-> e.err, src |-> TRUE]]
  ELSE [a EXCEPT !.src[k] = @ + e.dt]

SourceHookBad(cfg, a, e) ==
  LET k == e.lev IN
  Alive(cfg, a) \cup
  Cl("C10", "the source term's hooks get other arguments than the level step",
     e.w = "pre" => (a.on[k] /\ e.dt = a.dt[k] /\ e.i = a.i[k] /\ e.m = a.m[k])) \cup
  Cl("C10", "the source term's hooks get other arguments than the level step",
     e.w = "post" => (e.dt = a.dt[k] /\ e.i = a.i[k] /\ e.m = a.m[k]))
SourceHookDo(cfg, a, e) ==
  LET k == e.lev IN
  IF ~e.ok THEN [a EXCEPT !.cause = [lev |-> k, dt |-> e.err, src |-> TRUE]]
  ELSE IF e.w = "pre" THEN [a EXCEPT !.spre[k] = @ + 1] ELSE [a EXCEPT !.spost[k] = @ + 1]
=============================================================================

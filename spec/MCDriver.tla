------------------------------ MODULE MCDriver ------------------------------
(* Design model of the driver: all schedules of estimates, failures, output  *)
(* requests within small bounds.                                             *)
EXTENDS Driver, TLC

CONSTANTS Finals, Ests, Outs, MaxFails, StartCycles

OutsDef == { [freqs |-> <<1>>, ivals |-> <<>>], [freqs |-> <<2>>, ivals |-> <<3>>],
             [freqs |-> <<>>, ivals |-> <<2>>], [freqs |-> <<0>>, ivals |-> <<0, 3, 2>>] }

VARIABLES cfg, s, dtlast, estused, fails, log, returned
vars == <<cfg, s, dtlast, estused, fails, log, returned>>

Requests ==
  { <<>> } \cup { <<o>> : o \in Outs } \cup { <<o, p>> : o, p \in Outs }

Configs ==
  { [final |-> f, maxc |-> m, num |-> n, den |-> 2, backup |-> b, t0 |-> t, c0 |-> c,
     outs |-> r, gated |-> g] :
    f \in Finals, m \in {-1, 2}, n \in {1, 2}, b \in BOOLEAN, t \in {0, 1}, c \in StartCycles,
    r \in Requests, g \in BOOLEAN }

Init ==
  /\ cfg \in {c \in Configs : c.gated \/ Len(c.outs) = 1}
  /\ s = InitialState(cfg)
  /\ dtlast = 0 /\ estused = 0 /\ fails = 0 /\ returned = FALSE
  /\ log = <<>>    \* <<output, time, contents>>, in order

Fresh == s.acc + 1      \* contents: accepted states are even, others odd or larger

Prepare ==
  /\ CanPrepare(cfg, s) /\ ~returned
  /\ s' = DoPrepare(s, s.cur + 1)
  /\ UNCHANGED <<cfg, dtlast, estused, fails, log, returned>>

Attempt(dt, e) == /\ dtlast' = dt /\ estused' = e

Step ==
  /\ CanStep(s) /\ ~returned
  /\ \E e \in (IF s.est > 0 THEN {s.est} ELSE Ests) :
       LET dt == Limit(cfg, s.time, e) IN
         /\ Attempt(dt, e)
         /\ s' = DoStep(s, dt, s.cur + 1)
         /\ UNCHANGED <<cfg, fails, log, returned>>

Fail ==
  /\ CanStep(s) /\ ~returned /\ fails < MaxFails
  /\ \E e \in (IF s.est > 0 THEN {s.est} ELSE Ests), e2 \in Ests :
       /\ Attempt(Limit(cfg, s.time, e), e)
       /\ s' = DoFail(cfg, s, e2)
       /\ fails' = fails + 1
       /\ UNCHANGED <<cfg, log, returned>>

Commit ==
  /\ CanCommit(s) /\ ~returned
  /\ s' = DoCommit(cfg, s, s.time + dtlast, s.cycle + 1, s.cur + 1)
  /\ fails' = 0
  /\ UNCHANGED <<cfg, dtlast, estused, log, returned>>

Output ==
  /\ ~returned
  /\ \E k \in DOMAIN cfg.outs :
       /\ CanOutput(s, k)
       /\ s' = DoOutput(s, k)
       /\ log' = Append(log, <<k, s.time, s.cycle, s.cur>>)
  /\ UNCHANGED <<cfg, dtlast, estused, fails, returned>>

Return ==
  /\ CanReturn(cfg, s) /\ ~returned
  /\ returned' = TRUE
  /\ UNCHANGED <<cfg, s, dtlast, estused, fails, log>>

Next == Prepare \/ Step \/ Fail \/ Commit \/ Output \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ------------------------------ *)
\* C01
NoOverstep == s.time <= cfg.final \/ s.time = cfg.t0
StepSound == s.ph = "stepped" =>
  /\ dtlast > 0
  /\ dtlast * cfg.den <= cfg.num * estused
  /\ s.time + dtlast <= cfg.final
  /\ \A k \in DOMAIN cfg.outs : \A T \in Range(cfg.outs[k].ivals) :
       T > 0 => \A x \in (s.time + 1)..(s.time + dtlast - 1) : x % T # 0
CycleBound == cfg.maxc >= 0 => (s.cycle <= cfg.maxc \/ s.cycle = cfg.c0)
TimeMonotone == [][s'.time >= s.time /\ s'.cycle >= s.cycle]_vars
Terminates == <>returned
FinishedProperly == returned /\ s.ph # "failed" => Finished(cfg, s.time, s.cycle)
\* C02
RolledBack == (s.ph = "idle" => s.cur = s.acc)
StopsOnlyWithoutBackup == s.ph = "failed" => ~cfg.backup
RetryUsesEstimate == [][(s.est > 0 /\ s.ph = "ready" /\ s'.ph # "ready") => estused' = s.est]_vars
\* C03
OnlyDue == \A i \in DOMAIN log :
  cfg.gated => Due(cfg.outs[log[i][1]], log[i][2], log[i][3])
OnlyOnce == \A i, j \in DOMAIN log : i # j =>
  <<log[i][1], log[i][3]>> # <<log[j][1], log[j][3]>>
NoneMissed == returned /\ s.ph # "failed" =>
  \A k \in DOMAIN cfg.outs : \A T \in Range(cfg.outs[k].ivals) : T > 0 =>
    \A x \in cfg.t0..s.time : x % T = 0 =>
      \E i \in DOMAIN log : log[i][1] = k /\ log[i][2] = x
FinalShown == returned /\ s.ph # "failed" /\ ~cfg.gated =>
  \E i \in DOMAIN log : log[i][2] = s.time /\ log[i][3] = s.cycle
=============================================================================

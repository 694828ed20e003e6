----------------------------- MODULE DriverTrace -----------------------------
(* Checks recorded runs of the real driver against Driver.  Every event is   *)
(* judged by the guards of the design; `bad` collects the broken clauses,    *)
(* after which the state follows what was observed so that the rest of the   *)
(* run is judged too.                                                        *)
EXTENDS Driver, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, l, s, bad
vars == <<tid, l, s, bad>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Clause(p, name, ok) == IF ok THEN {} ELSE {<<p, name>>}

Init ==
  /\ tid \in DOMAIN Traces
  /\ l = 1 /\ bad = {}
  /\ s = InitialState(Traces[tid].cfg)

Blame == IF s.est > 0 THEN "C02" ELSE "C01"

OnPrepare(e) ==
  /\ bad' = bad
      \cup Clause("C02", "continues after a failed step without backup", s.ph # "failed")
      \cup Clause("C01", "prepares a step out of turn", s.ph \in {"idle", "failed"})
      \cup Clause("C01", "starts a step although the run is complete", ~Finished(Cfg, s.time, s.cycle))
      \cup Clause("C03", "a due output is missing", s.pend = {})
      \cup Clause("C02", "does not continue from the last accepted state", s.ph = "idle" => e.i = s.acc)
  /\ s' = DoPrepare([s EXCEPT !.pend = {}], e.o)

OnAdvance(e) ==
  LET est == IF s.est > 0 THEN s.est ELSE e.est IN
  /\ bad' = bad
      \cup Clause("C01", "advances without preparing the step", s.ph = "ready")
      \cup Clause("C02", "advances other contents than the prepared ones", e.i = s.cur)
      \cup Clause(Blame, "the step is not positive", e.dt > 0)
      \cup Clause(Blame, "the step exceeds the stable step", e.dt * Cfg.den <= est * Cfg.num)
      \cup Clause("C01", "the step oversteps the final time", s.time + e.dt <= Cfg.final)
      \cup Clause("C03", "the step oversteps an output time", s.time + e.dt <= NextOutput(Cfg, s.time))
      \cup Clause(Blame, "the step is not the largest one allowed", e.dt = Limit(Cfg, s.time, est))
  /\ s' = IF e.ok THEN DoStep(s, e.dt, e.o) ELSE DoFail(Cfg, s, e.err)

OnCommit(e) ==
  /\ bad' = bad
      \cup Clause(IF s.ph = "idle" THEN "C02" ELSE "C01", "commits a step that was not taken", s.ph = "stepped")
      \cup Clause("C01", "commits other contents", e.i = s.cur)
      \cup Clause("C01", "commits another step size", e.dt = Ev[l-1].dt)
      \cup Clause("C01", "time is off the grid", e.t >= s.time)
  /\ s' = DoCommit(Cfg, s, e.t, e.c, e.o)

OnOutput(e) ==
  /\ bad' = bad
      \cup Clause("C02", "an output sees contents that were not accepted", s.ph = "idle" /\ e.i = s.acc)
      \cup Clause("C03", "an output sees a wrong time or cycle", e.t = s.time /\ e.c = s.cycle)
      \cup Clause("C03", "an output that is not due or was served already", e.k \in s.pend)
  /\ s' = DoOutput(s, e.k)

OnReturn(e) ==
  /\ bad' = bad
      \cup Clause("C02", "stops although a backup exists", s.ph # "failed" => (s.est = 0 \/ Finished(Cfg, s.time, s.cycle)))
      \cup Clause("C01", "returns before the run is complete",
                  s.ph = "failed" \/ s.est > 0 \/ Finished(Cfg, s.time, s.cycle))
      \cup Clause("C01", "returns in the middle of a step", s.ph \in {"failed", "idle"})
      \cup Clause("C02", "returns other contents than the accepted ones", s.ph = "idle" => e.i = s.acc)
      \cup Clause("C03", "a due output is missing", s.pend = {})
  /\ s' = s

Next ==
  /\ l <= Len(Ev)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev[l] IN
     CASE e.a = "pre"  -> OnPrepare(e)
       [] e.a = "adv"  -> OnAdvance(e)
       [] e.a = "post" -> OnCommit(e)
       [] e.a = "out"  -> OnOutput(e)
       [] e.a = "ret"  -> OnReturn(e)
       [] OTHER        -> /\ bad' = bad \cup {<<p, "crash, hang or runaway: " \o e.a>> : p \in {"C01", "C02", "C03"}}
                          /\ UNCHANGED s

Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================

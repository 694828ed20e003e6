------------------------------- MODULE Driver -------------------------------
(* The time-integration driver: the loop that asks for a stable time step,   *)
(* limits it, lets the solver attempt the step, commits or rolls back, and   *)
(* hands accepted states to the requested outputs.                           *)
(*                                                                           *)
(* Time is counted in integer units.  The contents of the grid are abstract: *)
(* every operation of the solver produces contents that were not there       *)
(* before, so "the state is restored" means "the very same contents".        *)
(*                                                                           *)
(* The first part gives guards and effects as operators over a state record; *)
(* the design model (MCDriver) composes them into a next-state relation and  *)
(* checks the properties exhaustively, the trace specification (DriverTrace) *)
(* evaluates the same operators on what the real driver did.                 *)
EXTENDS Integers, Sequences, FiniteSets

Infinity == 1000000
Minimum(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(q) == {q[i] : i \in DOMAIN q}

(* ------------------------------- outputs -------------------------------- *)
\* An output request: frequencies in cycles, intervals in time; entries that
\* are not positive are switched off.
NextMultiple(t, T) == t - (t % T) + T
NextTime(o, t) == Minimum({Infinity} \cup {NextMultiple(t, T) : T \in {x \in Range(o.ivals) : x > 0}})
Due(o, t, c) ==
  \/ t = 0
  \/ \E f \in Range(o.freqs) : f > 0 /\ c % f = 0
  \/ \E T \in Range(o.ivals) : T > 0 /\ t % T = 0
DueSet(cfg, t, c) == {k \in DOMAIN cfg.outs : Due(cfg.outs[k], t, c)}
NextOutput(cfg, t) == Minimum({Infinity} \cup {NextTime(cfg.outs[k], t) : k \in DOMAIN cfg.outs})

(* -------------------------------- driver -------------------------------- *)
\* est = 0: no estimate from a failed step is pending
Finished(cfg, t, c) == t >= cfg.final \/ (cfg.maxc >= 0 /\ c >= cfg.maxc)
Limit(cfg, t, est) ==
  Minimum({cfg.final - t, NextOutput(cfg, t) - t, (cfg.num * est) \div cfg.den})

\* Which outputs have to see an accepted state.  A composite of outputs asks
\* each member; a single output is also given the final state.
Pending(cfg, t, c) ==
  IF cfg.gated THEN DueSet(cfg, t, c)
  ELSE IF DueSet(cfg, t, c) # {} \/ Finished(cfg, t, c) THEN DOMAIN cfg.outs ELSE {}

InitialState(cfg) ==
  [ph   |-> "idle",       \* idle, ready (prepared), stepped, failed
   time |-> cfg.t0, cycle |-> cfg.c0,   \* of the last accepted state
   acc  |-> 0,            \* contents of the last accepted state
   cur  |-> 0,            \* contents the solver holds now
   est  |-> 0,            \* estimate carried over from a failed step
   \* the caller hands the initial state to the outputs before the run
   pend |-> IF cfg.gated THEN DueSet(cfg, cfg.t0, cfg.c0) ELSE DOMAIN cfg.outs]

\* effects
DoPrepare(s, o) == [s EXCEPT !.ph = "ready", !.cur = o]
DoStep(s, dt, o) == [s EXCEPT !.ph = "stepped", !.cur = o, !.est = 0]
DoFail(cfg, s, e) ==
  IF cfg.backup THEN [s EXCEPT !.ph = "idle", !.cur = s.acc, !.est = e]
  ELSE [s EXCEPT !.ph = "failed"]
DoCommit(cfg, s, t, c, o) ==
  [s EXCEPT !.ph = "idle", !.time = t, !.cycle = c, !.acc = o, !.cur = o,
            !.pend = Pending(cfg, t, c)]
DoOutput(s, k) == [s EXCEPT !.pend = @ \ {k}]

\* guards
CanPrepare(cfg, s) == s.ph = "idle" /\ s.pend = {} /\ ~Finished(cfg, s.time, s.cycle)
CanStep(s) == s.ph = "ready"
CanCommit(s) == s.ph = "stepped"
CanOutput(s, k) == s.ph = "idle" /\ k \in s.pend
CanReturn(cfg, s) ==
  s.ph = "failed" \/ (s.ph = "idle" /\ s.pend = {} /\ Finished(cfg, s.time, s.cycle))
=============================================================================

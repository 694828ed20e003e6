--------------------------- MODULE SplittingTrace ---------------------------
EXTENDS Splitting, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, calls, bad
vars == <<tid, l, calls, bad>>
Ev == Traces[tid].ev
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ calls = <<>>
Next ==
  /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev[l] IN
     CASE e.a = "call" -> calls' = Append(calls, <<e.o, e.dt>>) /\ UNCHANGED bad
       [] e.a = "ret"  -> /\ bad' = bad \cup Broken(Traces[tid].cfg, [calls |-> calls, fail |-> e.fail, ok |-> e.ok, err |-> e.err])
                          /\ calls' = <<>>
       [] OTHER        -> bad' = bad \cup {<<"C09", "crash, hang or runaway: " \o e.a>>} /\ UNCHANGED calls
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================

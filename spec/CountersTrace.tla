---------------------------- MODULE CountersTrace ----------------------------
(* Histories of the real registry, its counters and timers; with several     *)
(* processes the history names the process of every event.                   *)
EXTENDS Counters, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, cnt, adr, timers, bad
vars == <<tid, l, cnt, adr, timers, bad>>
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Names == {Cfg.names[i] : i \in DOMAIN Cfg.names}
cl(name, ok) == IF ok THEN {} ELSE {<<"C23", name>>}
Eps == "1e-14"
\* the counter that ends a measurement with this event, if any
Ended(e) == IF e.a \in {"start", "take", "end"} THEN timers[e.d] ELSE ""
CountAfter(e) ==
  CASE e.a = "add" -> [cnt EXCEPT ![e.p][e.name] = Append(@, e.v)]
    [] e.a = "reset" -> [cnt EXCEPT ![e.p][e.name] = <<>>]
    [] Ended(e) # "" -> [cnt EXCEPT ![1][Ended(e)] = Append(@, e.got)]
    [] OTHER -> cnt
TimersAfter(e) ==
  CASE e.a = "start" -> Begin(timers, e.d, e.name)
    [] e.a = "take" -> TakeOver(timers, e.d, e.s)
    [] e.a = "end" -> End(timers, e.d)
    [] OTHER -> timers
Big(s) == RFold(RMax, "1e-30", [i \in DOMAIN s |-> RAbs(s[i])])
Num2(x, y) == RWithin(x, y, RAbs(y) (.) "0.0501") \* two digits are shown
Broken(e) ==
  CASE e.a \in {"next", "add", "reset"} -> {}
    [] e.a = "get" ->
       cl("one name, two counters", adr[e.name] # 0 => e.adr = adr[e.name]) \cup
       cl("two names, one counter", \A n \in Names \ {e.name} : adr[n] # e.adr) \cup
       cl("a counter has another name", e.as = e.name)
    [] e.a = "query" ->
       LET s == cnt[1][e.name] b == Big(s) IN
       cl("the number of measurements is wrong", e.count = Len(s)) \cup
       cl("the total is not the sum of the measurements", REq(e.value, Total(s))) \cup
       cl("the least or the greatest measurement is wrong", REq(e.min, Least(s)) /\ REq(e.max, Greatest(s))) \cup
       cl("the mean is wrong", RClose(e.mean, Mean(s), Eps, b)) \cup
       cl("the variance or the standard deviation is wrong",
          /\ RClose(e.variance, Variance(s), Eps (.) Len(s) (.) 10, RSq(b))
          /\ RClose(RSq(e.stddev), e.variance, Eps, "0") /\ RLeq("0", e.stddev))
    [] e.a \in {"start", "take", "end"} ->
       LET after == CountAfter(e)[1] c(i) == after[e.seen[i].name] IN
       cl("a time is not counted once, for the counter of the timer: " \o e.a,
          \A i \in DOMAIN e.seen : e.seen[i].count = Len(c(i)) /\ REq(e.seen[i].value, Total(c(i)))) \cup
       cl("the time counted is not the time between start and end: " \o e.a,
          Ended(e) # "" => RLeq(e.lo, e.got) /\ RLeq(e.got, e.hi))
    [] e.a = "gather" ->
       LET r == e.results n(i) == r[i].name IN
       cl("the statistics do not have every counter once",
          /\ {n(i) : i \in DOMAIN r} = {x \in Names : adr[x] # 0} /\ Len(r) = Cardinality({x \in Names : adr[x] # 0})) \cup
       cl("the gathered statistics are not those of the measurements of all processes",
          \A i \in DOMAIN r : n(i) \in Names =>
            LET per == [p \in 1..Cfg.ranks |-> cnt[p][n(i)]] g == Gathered(per, e.root)
                b == RFold(RMax, "1e-30", [p \in 1..Cfg.ranks |-> Big(per[p])]) IN
            /\ r[i].count = g.count /\ REq(r[i].min, g.min) /\ REq(r[i].max, g.max)
            /\ RClose(r[i].mean, g.mean, Eps, b) /\ RClose(r[i].variance, g.variance, Eps (.) 100, RSq(b))
            /\ RClose(RSq(r[i].stddev), r[i].variance, Eps, "0")) \cup
       cl("a process that is not the root gets statistics", e.others = 0)
    [] e.a = "table" ->
       LET given == e.given row(i) == e.rows[i] unit == e.unit
           of(nm) == given[CHOOSE i \in DOMAIN given : given[i].name = nm]
           total(x) == x.mean (.) x.count IN
       cl("the table does not have a row for every counter", Len(e.rows) = Len(given) /\ {row(i).name : i \in DOMAIN e.rows} = {given[i].name : i \in DOMAIN given}) \cup
       (IF {row(i).name : i \in DOMAIN e.rows} # {given[i].name : i \in DOMAIN given} THEN {} ELSE
        cl("a number in the table is wrong",
          \A i \in DOMAIN e.rows : LET x == of(row(i).name) trunc(a) == RFloor(a (/) unit) IN
            /\ REq(row(i).cells[1], x.count) /\ REq(row(i).cells[2], trunc(x.min)) /\ REq(row(i).cells[3], trunc(x.max))
            /\ REq(row(i).cells[4], trunc(RFloor(x.mean (+) "0.5"))) /\ REq(row(i).cells[5], trunc(RFloor(x.stddev (+) "0.5")))
            /\ IF REq(e.reference, "-1") THEN Num2(row(i).last, trunc(RFloor(total(x) (+) "0.5"))) ELSE Num2(row(i).last, (total(x) (/) e.reference) (.) 100)) \cup
        cl("the rows are not ordered by their share of the time",
          e.sorted => \A i \in 1..(Len(e.rows) - 1) : RLeq(total(of(row(i + 1).name)), total(of(row(i).name)))))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == /\ tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
        /\ cnt = [p \in 1..Cfg.ranks |-> [n \in Names |-> <<>>]] /\ adr = [n \in Names |-> 0]
        /\ timers = [d \in 1..Cfg.slots |-> ""]
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
        /\ cnt' = CountAfter(Ev[l]) /\ timers' = TimersAfter(Ev[l])
        /\ adr' = IF Ev[l].a = "get" THEN [adr EXCEPT ![Ev[l].name] = Ev[l].adr] ELSE adr
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================

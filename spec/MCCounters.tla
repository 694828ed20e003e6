---------------------------- MODULE MCCounters ----------------------------
(* Processes with counters made in any order, timers that are begun, handed  *)
(* on, replaced and ended, and the statistics gathered counter after counter *)
(* by collective operations: every interval is counted exactly once, and     *)
(* what is gathered belongs to one counter.                                  *)
EXTENDS Counters, TLC
CONSTANTS Ranks, Names, NSlots, MaxBegun
VARIABLES order, cnt, timers, begun, got, k
vars == <<order, cnt, timers, begun, got, k>>
P == 1..Ranks
Slots == 1..NSlots
NameSeq == CHOOSE f \in [1..Cardinality(Names) -> Names] : \A n \in Names : \E i \in DOMAIN f : f[i] = n
Rank1(n) == CHOOSE i \in 1..Cardinality(Names) : NameSeq[i] = n
Init == /\ order = [p \in P |-> <<>>] /\ cnt = [p \in P |-> [n \in Names |-> <<>>]]
        /\ timers = [d \in Slots |-> ""] /\ begun = [n \in Names |-> 0] /\ got = {} /\ k = 0
\* timers live on process 1, the others add numbers
Rec(c, d) == IF timers[d] = "" THEN c ELSE [c EXCEPT ![1][timers[d]] = Append(@, 1)]
Insert(p, n) == IF \E i \in DOMAIN order[p] : order[p][i] = n THEN order ELSE [order EXCEPT ![p] = Append(@, n)]
Start(d, n) == /\ begun[n] < MaxBegun /\ timers' = Begin(timers, d, n) /\ cnt' = Rec(cnt, d)
               /\ begun' = [begun EXCEPT ![n] = @ + 1] /\ order' = Insert(1, n)
Take(d, s) == d # s /\ timers' = TakeOver(timers, d, s) /\ cnt' = Rec(cnt, d) /\ UNCHANGED <<begun, order>>
Stop(d) == timers' = End(timers, d) /\ cnt' = Rec(cnt, d) /\ UNCHANGED <<begun, order>>
Count(p, n) == p # 1 /\ Len(cnt[p][n]) < 1 /\ cnt' = [cnt EXCEPT ![p][n] = Append(@, 2 + Rank1(n))] /\ order' = Insert(p, n) /\ UNCHANGED <<timers, begun>>
\* collective: the k-th operation of all processes
Sorted(p) == SortSeq(order[p], LAMBDA a, b : Rank1(a) < Rank1(b))
Same == \A p, q \in P : {order[p][i] : i \in DOMAIN order[p]} = {order[q][i] : i \in DOMAIN order[q]}
Gather == /\ Same /\ k < Len(order[1]) /\ k' = k + 1
          /\ got' = got \cup {<<Sorted(1)[k'], Gathered([p \in P |-> cnt[p][Sorted(p)[k']]], 1)>>}
          /\ UNCHANGED <<order, cnt, timers, begun>>
Next == \/ k = 0 /\ UNCHANGED <<got, k>> /\ (\E d \in Slots : (\E n \in Names : Start(d, n)) \/ Stop(d) \/ \E s \in Slots : Take(d, s))
        \/ k = 0 /\ UNCHANGED <<got, k>> /\ \E p \in P, n \in Names : Count(p, n)
        \/ Gather
Spec == Init /\ [][Next]_vars
Once == \A n \in Names : begun[n] = Len(cnt[1][n]) + Cardinality({d \in Slots : timers[d] = n})
Belongs == \A g \in got : g[2] = Gathered([p \in P |-> cnt[p][g[1]]], 1)
Sane == \A g \in got : LET r == g[2] IN RLeq(r.min, r.mean) /\ RLeq(r.mean, r.max) /\ RLeq("0", r.variance)
Steiner == \A p \in P, n \in Names : LET s == cnt[p][n] IN
  REq(Variance(s), Mean([i \in DOMAIN s |-> RSq(s[i])]) (-) RSq(Mean(s)))
=============================================================================

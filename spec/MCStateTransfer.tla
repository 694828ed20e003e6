-------------------------- MODULE MCStateTransfer --------------------------
(* All short histories of stores and loads through views of a small patch in *)
(* every layout: what was stored last is loaded, elsewhere nothing changes.  *)
EXTENDS StateTransfer, TLC
CONSTANTS NX, NY, Depth, Ops
VARIABLES L, mem, last, ops
vars == <<L, mem, last, ops>>
Vs == {"a", "m"}
Sizes == NX * NY
Layouts == \* variable after variable, or components interleaved with padding
  {[a |-> [b |-> p, cs |-> 0, st |-> <<1, NX + q>>, d |-> 1],
    m |-> [b |-> p + (NX + q) * NY + r, cs |-> (NX + q) * NY + r, st |-> <<1, NX + q>>, d |-> Depth]]
     : p \in 0..1, q \in 0..1, r \in 0..1}
All == UNION {Cells(<<0, 0>>, <<NX, NY>>, 1)}
Ks == {{"a"}, {"a", "m"}}
Init == L \in Layouts /\ mem = <<>> /\ ops = 0
        /\ last = [x \in UNION {{<<v, c, i>> : v \in {v1 \in Vs : c <= L[v1].d}} : c \in 1..Depth, i \in All} |->
                     Addr(L[x[1]], <<0, 0>>, x[3], x[2], 0)]
Store(k, i, n) ==
  LET val == [v \in k |-> [c \in 1..L[v].d |-> [x \in 1..n |-> 1000 + 100 * ops + 10 * c + x + (IF v = "a" THEN 5 ELSE 0)]]] IN
  /\ mem' = Apply(mem, Writes(L, k, <<0, 0>>, i, n, val))
  /\ last' = [x \in DOMAIN last |->
                IF x[1] \in k /\ x[3][2] = i[2] /\ x[3][1] - i[1] \in 0..(n - 1)
                THEN val[x[1]][x[2]][x[3][1] - i[1] + 1] ELSE last[x]]
  /\ ops' = ops + 1 /\ UNCHANGED L
Next == ops < Ops /\ \E k \in Ks, i \in All, n \in 1..NX : i[1] + n <= NX /\ Store(k, i, n)
Spec == Init /\ [][Next]_vars
LoadsWhatWasStored == \A i \in All : \A n \in 1..(NX - i[1]) :
  Read(mem, L, Vs, <<0, 0>>, i, n) =
    [v \in Vs |-> [c \in 1..L[v].d |-> [x \in 1..n |-> last[<<v, c, <<i[1] + x - 1, i[2]>>>>]]]]
NoAliasing == \A x, y \in DOMAIN last : x # y =>
  Addr(L[x[1]], <<0, 0>>, x[3], x[2], 0) # Addr(L[y[1]], <<0, 0>>, y[3], y[2], 0)
=============================================================================

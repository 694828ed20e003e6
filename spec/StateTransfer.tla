--------------------------- MODULE StateTransfer ---------------------------
(* States live in memory behind views.  A layout gives, for each variable,   *)
(* the address b of its first component in the cell org, the distance cs of  *)
(* its d components and the strides st of the directions.  Memory maps       *)
(* addresses to values; cells never written hold their own address.          *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Dot(_, _, _, _)
Dot(i, org, st, k) == IF k > Len(st) THEN 0 ELSE (i[k] - org[k]) * st[k] + Dot(i, org, st, k + 1)
\* component c (from 1) of variable x in the cell `lane` steps right of i
Addr(x, org, i, c, lane) == x.b + (c - 1) * x.cs + Dot(i, org, x.st, 1) + lane * x.st[1]

At(mem, a) == IF a \in DOMAIN mem THEN mem[a] ELSE a
\* the n states in the cells from i to the right
Read(mem, L, ns, org, i, n) ==
  [v \in ns |-> [c \in 1..L[v].d |-> [x \in 1..n |-> At(mem, Addr(L[v], org, i, c, x - 1))]]]
\* the address/value pairs which storing n states writes
Writes(L, ns, org, i, n, val) ==
  UNION {{<<Addr(L[v], org, i, c, x - 1), val[v][c][x]>> : c \in 1..L[v].d, x \in 1..n} : v \in ns}
RECURSIVE Apply(_, _)
Apply(mem, ws) == IF ws = {} THEN mem ELSE
  [a \in DOMAIN mem \cup {w[1] : w \in ws} |->
     IF \E w \in ws : w[1] = a THEN (CHOOSE w \in ws : w[1] = a)[2] ELSE mem[a]]

\* cells and rows of the box [lo, lo + ext)
RECURSIVE Cells(_, _, _)
Cells(lo, ext, k) == IF k > Len(lo) THEN {<<>>}
  ELSE {<<x>> \o t : x \in lo[k]..(lo[k] + ext[k] - 1), t \in Cells(lo, ext, k + 1)}
RowStarts(lo, ext) == {<<lo[1]>> \o t : t \in Cells(lo, ext, 2)}
Inside(lo, ext, lo2, ext2) ==
  \A k \in DOMAIN lo : lo[k] <= lo2[k] /\ lo2[k] + ext2[k] <= lo[k] + ext[k]

\* a naming of components: <<variable, index>>, index -1 for a single one
Comps(L, ns) == UNION {{<<v, c>> : c \in 1..L[v].d} : v \in ns}
NameOf(L, vc) == <<vc[1], IF L[vc[1]].d = 1 THEN -1 ELSE vc[2] - 1>>
Names(L, ns, names) == \* every component has one name, those of a variable are consecutive
  /\ Len(names) = Cardinality(Comps(L, ns))
  /\ {names[j] : j \in DOMAIN names} = {NameOf(L, vc) : vc \in Comps(L, ns)}
  /\ \A j \in 1..(Len(names) - 1) : names[j + 1][2] > 0 =>
       names[j][1] = names[j + 1][1] /\ names[j][2] = names[j + 1][2] - 1
Position(L, names, vc) == CHOOSE j \in DOMAIN names : names[j] = NameOf(L, vc)
=============================================================================

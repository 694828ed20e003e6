-------------------------- MODULE IndexSpaceTrace --------------------------
(* Every answer of the real index calculus is the one of the specification. *)
EXTENDS IndexSpace, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
B(x) == [lo |-> x[1], up |-> x[2]]
cl(name, ok) == IF ok THEN {} ELSE {<<"C12", name>>}
\* slices of a subspan: [0, a] keeps index a, [1, a, b] the range, [2] everything
Kept(s) == SelectSeq([i \in DOMAIN s |-> <<i, s[i]>>], LAMBDA x : x[2][1] # 0)
SubExt(e, s) == LET k == Kept(s) IN
  [j \in DOMAIN k |-> IF k[j][2][1] = 2 THEN e[k[j][1]] ELSE k[j][2][3] - k[j][2][2]]
SubStr(st, s) == LET k == Kept(s) IN [j \in DOMAIN k |-> st[k[j][1]]]
SubOff(st, s) == Dot([i \in DOMAIN s |-> IF s[i][1] = 2 THEN 0 ELSE s[i][2]], st)
Zero(e) == [d \in DOMAIN e |-> 0]
ExtBox(e) == [lo |-> Zero(e), up |-> e]
MaxSet(S) == CHOOSE m \in S : \A x \in S : x <= m
NoRepeat(s) == Cardinality(SeqSet(s)) = Len(s)

Broken(e) ==
  CASE e.a = "contains" -> cl("Contains is not set inclusion",
        LET x == B(e.x) y == B(e.y) IN (~Empty(y)) => (e.res <=> ContainsBox(x, y)))
    [] e.a = "containsidx" -> cl("Contains is not membership", e.res <=> In(e.i, B(e.x)))
    [] e.a = "intersect" -> cl("Intersect is not the common cells",
        LET x == B(e.x) y == B(e.y) r == B(e.res) IN
        /\ Valid(r)
        /\ IF Empty(Intersection(x, y)) THEN Empty(r) ELSE r = Intersection(x, y))
    [] e.a = "grow" -> cl("Grow", B(e.res) = Grown(B(e.x), e.dir, e.l, e.r))
    [] e.a = "shrink" -> cl("Shrink", B(e.res) = Shrunk(B(e.x), e.dir, e.l, e.r))
    [] e.a = "embed" -> cl("Embed", B(e.res) = Embedded(B(e.x), e.l, e.r))
    [] e.a = "project" -> cl("Project", B(e.res) = Projected(B(e.x), e.r))
    [] e.a = "neighborhood" -> cl("Neighborhood", B(e.res) = Neighbours(e.i, e.w))
    [] e.a = "shift" -> cl("Shift", e.res = Shifted(e.i, e.dir, e.n))
    [] e.a = "leftto" -> cl("LeftTo", e.res = Shifted(e.i, e.dir, -e.n))
    [] e.a = "rightto" -> cl("RightTo", e.res = Shifted(e.i, e.dir, e.n - 1))
    [] e.a = "embedindex" -> cl("EmbedIndex", e.res = Append(e.i, e.dir - 1))
    [] e.a = "equal" -> cl("equality of boxes", e.eq = (e.x = e.y) /\ e.ne = (e.x # e.y))
    [] e.a = "foreach" ->
        cl("ForEachIndex does not visit every cell exactly once",
           NoRepeat(e.seen) /\ SeqSet(e.seen) = CellSet(B(e.x)))
        \cup cl("ForEachIndex does not return its function", e.returned = Len(e.seen))
    [] e.a = "view" -> \* any view: own box, extents, strides, addresses of its cells
        LET v == [off |-> e.off, lo |-> e.x[1], st |-> e.st] b == B(e.x) IN
        cl("a view does not cover its box", e.box = e.x /\ e.ext = Extents(b)) \cup
        cl("a view does not name the cells of its storage",
           /\ e.addr = Addresses(v, b)
           /\ e.addr2 = e.addr
           /\ (~Empty(b)) => (e.first = e.off /\ e.first + e.len > MaxSet(SeqSet(e.addr))))
    [] e.a = "rows" ->
        LET V(k) == [off |-> e.views[k].off, lo |-> e.views[k].x[1], st |-> e.views[k].st]
            Bx(k) == B(e.views[k].x)
            Starts(k) == {Address(V(k), i) : i \in RowStarts(Bx(k))}
            b1 == Bx(1)
            Want == {[k \in DOMAIN e.views |->
                        <<Address(V(k), [d \in DOMAIN i |-> i[d] - b1.lo[d] + Bx(k).lo[d]]), b1.up[1] - b1.lo[1]>>]
                      : i \in RowStarts(b1)} IN
        cl("ForEachRow does not visit the corresponding rows exactly once",
           IF Empty(b1) THEN \A c \in SeqSet(e.calls) : \A k \in DOMAIN c : c[k][2] = 0
           ELSE NoRepeat(e.calls) /\ SeqSet(e.calls) = Want)
    [] e.a = "mdspan" ->
        LET st == CASE e.layout = "left" -> LeftStrides(e.ext) [] e.layout = "right" -> RightStrides(e.ext)
                    [] OTHER -> e.st
            v == [off |-> 0, lo |-> Zero(e.ext), st |-> st] IN
        cl("an mdspan does not address its elements by its layout", e.addr = Addresses(v, ExtBox(e.ext)) /\ e.st = st)
        \cup cl("the extents of an mdspan are wrong",
                e.got = e.ext /\ e.size = Len(CellsOf(ExtBox(e.ext))))
        \cup cl("the span of an mdspan does not cover its elements",
                (~Empty(ExtBox(e.ext))) => e.len > MaxSet(SeqSet(e.addr)))
    [] e.a = "subspan" ->
        LET b == ExtBox(SubExt(e.ext, e.slices)) IN
        cl("a subspan has wrong extents", e.got = SubExt(e.ext, e.slices)) \cup
        cl("a subspan does not name the elements it was taken from",
           e.addr = Addresses([off |-> SubOff(e.st, e.slices), lo |-> Zero(b.up), st |-> SubStr(e.st, e.slices)], b))
    [] e.a = "span" -> \* part [from, from + n) of a span of length len
        cl("a part of a span is not the one asked for", e.begin = e.from /\ e.len = e.n /\ e.empty = (e.n = 0)
           /\ e.bytes = 8 * e.n /\ e.items = [i \in 1..e.n |-> e.from + i - 1])
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)

Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================

--------------------------------- MODULE Ode ---------------------------------
(* Integration of ordinary differential equations: solutions that are known,   *)
(* and what is made of the answers of the kernel that integrates.              *)
EXTENDS Num, Sequences, Naturals, Integers, FiniteSets
\* y(t) for y(t0) = y0
Solution(kind, p, t0, y0, t) ==
  LET s == t (-) t0 IN
  CASE kind = "decay" -> [i \in DOMAIN y0 |-> y0[i] (.) RExp(RNeg(p[i] (.) s))]
    [] kind = "turn" -> LET c == RCos(p[1] (.) s) d == RSin(p[1] (.) s) IN <<(y0[1] (.) c) (+) (y0[2] (.) d), (y0[2] (.) c) (-) (y0[1] (.) d)>>
    [] kind = "logistic" -> <<p[2] (/) ("1" (+) (((p[2] (/) y0[1]) (-) 1) (.) RExp(RNeg(p[1] (.) s))))>>
    [] kind = "forced" -> [i \in DOMAIN y0 |-> y0[i] (+) ((p[2 * i - 1] (/) p[2 * i]) (.) (RSin(p[2 * i] (.) t) (-) RSin(p[2 * i] (.) t0)))]
    [] kind = "bump" -> LET g(i, x) == LET z == (x (-) p[3 * i - 1]) (/) p[3 * i] IN p[3 * i - 2] (.) RExp(RNeg(z (.) z))
                        IN [i \in DOMAIN y0 |-> y0[i] (+) (g(i, t) (-) g(i, t0))]
    [] kind = "stiff" -> <<RCos(t) (+) ((y0[1] (-) RCos(t0)) (.) RExp(RNeg(p[1] (.) s)))>>
    [] kind = "chain" ->
         LET a == p[1] b == p[2] ea == RExp(RNeg(a (.) s)) eb == RExp(RNeg(b (.) s))
             y1 == y0[1] (.) ea
             y2 == (y0[2] (.) eb) (+) (((y0[1] (.) a) (/) (b (-) a)) (.) (ea (-) eb))
         IN <<y1, y2, (y0[1] (+) (y0[2] (+) y0[3])) (-) (y1 (+) y2)>>
\* the right hand sides
Rhs(kind, p, t, y) ==
  CASE kind = "decay" -> [i \in DOMAIN y |-> RNeg(p[i] (.) y[i])]
    [] kind = "turn" -> <<p[1] (.) y[2], RNeg(p[1] (.) y[1])>>
    [] kind = "logistic" -> <<p[1] (.) (y[1] (.) ("1" (-) (y[1] (/) p[2])))>>
    [] kind = "forced" -> [i \in DOMAIN y |-> p[2 * i - 1] (.) RCos(p[2 * i] (.) t)]
    [] kind = "bump" -> [i \in DOMAIN y |-> LET z == (t (-) p[3 * i - 1]) (/) p[3 * i] IN (("-2" (.) p[3 * i - 2]) (.) (z (/) p[3 * i])) (.) RExp(RNeg(z (.) z))]
    [] kind = "stiff" -> <<RNeg(p[1] (.) (y[1] (-) RCos(t))) (-) RSin(t)>>
    [] kind = "chain" -> <<RNeg(p[1] (.) y[1]), (p[1] (.) y[1]) (-) (p[2] (.) y[2]), p[2] (.) y[2]>>
\* How often the kernel is asked, for the answers it would give: once more, in two
\* halves from the very beginning, if its steps become too small
Attempts(codes) == IF codes[1] # -3 THEN 1 ELSE IF codes[2] <= 0 THEN 2 ELSE 3
Outcome(codes) ==
  LET n == Attempts(codes) c == codes[n] IN
  IF n > 1 THEN (IF c > 0 THEN "ok" ELSE "small")
  ELSE CASE c \in {1, 2} -> "ok" [] c = -1 -> "inconsistent" [] c = -2 -> "nmax" [] c = -4 -> "singular" [] c = -42 -> "nan" [] OTHER -> "unknown"
\* the interval of an attempt in quarters of the whole, and which attempt's result
\* it starts from (0: the initial values)
From(i) == IF i = 3 THEN 1 ELSE 0
Till(i) == IF i = 2 THEN 1 ELSE 2      \* in halves
StartsAt(i) == IF i = 3 THEN 2 ELSE 0
=============================================================================

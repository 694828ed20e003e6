-------------------------------- MODULE Num --------------------------------
(* Real numbers for the specifications of the numerical kernels.               *)
(*                                                                             *)
(* A number is a decimal string such as "1.4" or "-2.5e-3"; integers are       *)
(* accepted as well.  The operators below are given their meaning by           *)
(* spec/java/Num.java, which TLC loads in place of the definitions in this     *)
(* module: decimal arithmetic with 40 significant digits, so that a comparison *)
(* with what the code computed in double precision judges the code and not the *)
(* specification.  An undefined operation yields "nan", and every comparison   *)
(* with "nan" (or with an infinite number logged by the code) is FALSE.        *)
EXTENDS Integers, Sequences

Undefined(x) == CHOOSE y \in {} : y = x

RAdd(a, b) == Undefined(<<a, b>>)
RSub(a, b) == Undefined(<<a, b>>)
RMul(a, b) == Undefined(<<a, b>>)
RDiv(a, b) == Undefined(<<a, b>>)
RSqrt(a) == Undefined(a)
RPow(a, b) == Undefined(<<a, b>>)
RExp(a) == Undefined(a)
RLog(a) == Undefined(a)
RAtan2(a, b) == Undefined(<<a, b>>)
RCos(a) == Undefined(a)
RSin(a) == Undefined(a)
RNeg(a) == Undefined(a)
RAbs(a) == Undefined(a)
RMin(a, b) == Undefined(<<a, b>>)
RMax(a, b) == Undefined(<<a, b>>)
RFloor(a) == Undefined(a)
RLess(a, b) == Undefined(<<a, b>>)
RLeq(a, b) == Undefined(<<a, b>>)
REq(a, b) == Undefined(<<a, b>>)
RSign(a) == Undefined(a)
RFinite(a) == Undefined(a)
RWithin(a, b, tol) == Undefined(<<a, b, tol>>)   \* |a - b| <= |tol|
RSum(s) == Undefined(s)                          \* the sum of a sequence

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)

RSq(a) == RMul(a, a)

\* Equal up to rounding: the difference is at most Tol times the largest of the
\* two numbers and of a scale that the caller derives from the operands.
RClose(a, b, tol, scale) ==
  RWithin(a, b, RMul(tol, RMax(RAbs(scale), RMax(RAbs(a), RAbs(b)))))
=============================================================================

------------------------------- MODULE MLReal -------------------------------
(***************************************************************************)
(* The real field used by every other module.  TLA+ has no computable      *)
(* reals in TLC, so the operators below are given their meaning by         *)
(* java/MLReal.java (34 digit decimal arithmetic), which TLC loads in      *)
(* place of these bodies.  A number is a TLC integer when integral and     *)
(* small, otherwise a decimal string; never compare numbers with "=",      *)
(* always with REq / RNear.  The bodies here are the integer fragment.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a \div b          \* overridden: exact quotient
RNeg(a)    == -a
RAbs(a)    == IF a < 0 THEN -a ELSE a
RLt(a, b)  == a < b
RLe(a, b)  == a <= b
REq(a, b)  == a = b
RNear(a, b, tol) == a = b       \* overridden: |a-b| <= tol (1 + max(|a|,|b|))
RExp(a)    == 1                 \* overridden
RLn(a)     == 0                 \* overridden
RSqrt(a)   == a                 \* overridden
RAtan(a)   == a                 \* overridden
RPi        == 3                 \* overridden
RLgamma(a) == 0                 \* overridden: log of the Gamma function
RPowI(a, k) == a ^ k
RPow(a, b) == a ^ b             \* overridden: real exponents, 0^b = 0
RFact(n)   == 1                 \* overridden: factorial
RFloor(a)  == a                 \* overridden
RSum(s)    == 0                 \* overridden: sum of a sequence
RDot(s, t) == 0                 \* overridden: sum of products
RIsNan(a)  == a = "nan"        \* "nan" marks values outside the domain; absorbing
RRound(a, k) == a              \* overridden: k significant digits (output only)
RRoundAll(v, k) == v           \* overridden: the same on nested sequences
RBounded(v, b) == TRUE         \* overridden: every number in v is defined, |x| <= b
Tup(s)     == s                 \* identity; overridden to force evaluation

(* Pseudo-random choice: H(s, k) is the k-th child of random state s.  The *)
(* specifications draw every "arbitrary" choice from it, so that a run is  *)
(* reproducible from its seed.                                             *)
H(s, k) == (s * 31 + k) % 1073741824
RRnd(s, lo, hi) == lo + (s % (hi - lo + 1))   \* thousandths; overridden

(* Writes a value as one JSON line; always TRUE.                           *)
Emit(file, v) == TRUE
=============================================================================

------------------------------ MODULE RootCheck ------------------------------
(***************************************************************************)
(* Trace validation of the root finders: the file holds what the library     *)
(* answered to each target, and the answers are accepted when the exact       *)
(* distribution at the returned rates is within the tolerance of the target.  *)
(***************************************************************************)
EXTENDS Arr, Jet, TLC, Json

CONSTANTS InFile, OutFile

VARIABLES k, verdicts
Recs == ndJsonDeserialize(InFile)

(* terms of a Poisson law until negligible                                             *)
RECURSIVE Terms(_, _)
Terms(x, acc) ==
    LET m == Len(acc) IN
    IF RLt(x, m) /\ RLt(acc[m], "1e-25") THEN acc
    ELSE Terms(x, Append(acc, RDiv(RMul(acc[m], x), m)))
Law(x) == Tup(Terms(x, <<RExp(RNeg(x))>>))
RECURSIVE CumTo(_, _)
CumTo(p, m) == IF m = 0 THEN <<>> ELSE LET c == CumTo(p, m - 1) IN
               Append(c, IF m = 1 THEN p[1] ELSE RAdd(c[m - 1], p[m]))
At1(c, m) == IF m < 0 THEN 0 ELSE c[IF m + 1 > Len(c) THEN Len(c) ELSE m + 1]
DiffUpto(p, c, m) == RSum(Tup([x \in 1..Len(p) |-> RMul(p[x], At1(c, x - 1 + m))]))

(* residual of each component of an answer                                              *)
Residuals(r) ==
    LET p == Law(r.a) IN
    IF r.kind = "pois" THEN <<RSub(RSum(Sub(p, 1, IF r.n + 1 > Len(p) THEN Len(p) ELSE r.n + 1)), r.t[1])>>
    ELSE LET c == Tup(CumTo(Law(r.b), Len(Law(r.b)))) IN
         IF r.kind = "pair" THEN <<RSub(DiffUpto(p, c, r.n - 1), r.t[1]), RSub(RSub(1, DiffUpto(p, c, r.n)), r.t[2])>>
         ELSE LET lo == DiffUpto(p, c, -1)  hi == DiffUpto(p, c, 0) IN
              <<RSub(RMul("0.5", RAdd(lo, hi)), r.t[1])>>
Norm(q) == RSqrt(RDot(q, q))
Init == k = 0 /\ verdicts = <<>>
Check ==
    /\ k < Len(Recs) /\ k' = k + 1
    /\ LET r == Recs[k'] e == Norm(Residuals(r)) IN
       /\ Emit(OutFile, [i |-> r.i, kind |-> r.kind, err |-> RRound(e, 6),
               ok |-> RLt(0, r.a) /\ RLt(0, r.b) /\ RLe(e, RAdd(RMul(3, r.tol), "1e-12"))])
       /\ verdicts' = verdicts
Spec == Init /\ [][Check]_<<k, verdicts>>
=============================================================================

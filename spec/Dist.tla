-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Poisson and Skellam distributions as processes: X and Y count events of   *)
(* rates a and b; D = Y - X.  The terms of both laws are laid out one by one *)
(* as jets in (a, b) until what is left is negligible; every query is a sum   *)
(* of terms.                                                                  *)
(***************************************************************************)
EXTENDS Arr, Jet, TLC

CONSTANTS NSess, Seed, OutFile, Kind, MaxRate      \* Kind: "cdf" | "root"

VARIABLES id, a, b, n, px, py, phase
vars == <<id, a, b, n, px, py, phase>>

R(st, key, m) == H(st, key) % m
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
Chance(st, key, num, den) == R(st, key, den) < num
st0 == H(Seed, id)
Rate(st) ==
    LET m == R(st, 1, 8) IN
    IF Kind = "cdf" /\ Chance(st, 7, 1, 25) THEN 0
    ELSE IF Kind = "cdf" /\ Chance(st, 8, 1, 60) THEN RMul(MaxRate, RRnd(H(st, 2), 1000, 9000))
    ELSE
    CASE m = 0 -> RRnd(H(st, 2), 1, 100)
      [] m \in {1, 2} -> RRnd(H(st, 2), 50, 1000)
      [] m \in {3, 4, 5} -> RRnd(H(st, 2), 500, 4000)
      [] m = 6 -> 1 + R(st, 3, MaxRate)
      [] m = 7 -> RMul(MaxRate, RRnd(H(st, 2), 50, 1000))
Zt == "1e-30"
Term0(j) == Tup(JExp(JNeg(j)))
Init ==
    /\ id \in 1..NSess /\ a = Rate(H(st0, 1)) /\ b = Rate(H(st0, 2)) /\ phase = "lay"
    /\ n = R(H(st0, 3), 1, 11) - 5 + (IF Chance(st0, 4, 1, 3) THEN RFloor(RSub(b, a)) ELSE 0)
           + (IF Kind = "cdf" /\ Chance(st0, 9, 1, 10) THEN PickSeq(st0, 10, <<60, -60, 25, -25, 12, -12>>) ELSE 0)
    /\ px = <<Term0(JVar(a, 1, 2))>> /\ py = <<Term0(JVar(b, 2, 2))>>
(* p(k + 1) = p(k) rate / (k + 1); all terms below N are kept                          *)
More(p, x) == Append(p, Tup(JMul(p[Len(p)], JScale(RDiv(1, Len(p)), x))))
Past(p, x) == RLt(x, Len(p)) /\ RLt(JV(p[Len(p)]), Zt)
Lay ==
    /\ phase = "lay" /\ (~Past(px, a) \/ ~Past(py, b))
    /\ px' = IF Past(px, a) THEN px ELSE More(px, JVar(a, 1, 2))
    /\ py' = IF Past(py, b) THEN py ELSE More(py, JVar(b, 2, 2))
    /\ UNCHANGED <<id, a, b, n, phase>>
Laid == Past(px, a) /\ Past(py, b)

(* ---- queries (jets) -------------------------------------------------------------- *)
T(p, k) == IF k < 0 \/ k >= Len(p) THEN JConst(0) ELSE p[k + 1]
Upto(p, k) == IF k < 0 THEN JConst(0) ELSE JSum(Sub(p, 1, IF k + 1 > Len(p) THEN Len(p) ELSE k + 1))
(* cumulative sums of a law, one pass                                                  *)
RECURSIVE CumTo(_, _)
CumTo(p, k) == IF k = 0 THEN <<>> ELSE LET c == CumTo(p, k - 1) IN
               Append(c, Tup(IF k = 1 THEN p[1] ELSE JAdd(c[k - 1], p[k])))
At1(c, k) == IF k < 0 THEN JConst(0) ELSE c[IF k + 1 > Len(c) THEN Len(c) ELSE k + 1]
(* P(Y - X <= m), from the cumulative law c of Y                                       *)
DiffUpto(m, c) == JSum(Tup([x \in 1..Len(px) |-> JMul(px[x], At1(c, x - 1 + m))]))
One == JConst(1)
First(j) == <<Get(j, 1), Get(j, 2), Get(j, 3)>>     \* value and the two derivatives
OfX(j) == <<Get(j, 1), Get(j, 2)>>
Half(i, j) == JScale("0.5", JAdd(i, j))
Size0 == 1 + R(H(st0, 6), 1, 9)
SizeV == PickSeq(st0, 8, <<1, 2, 3, Size0, Size0, 20, 45, 120>>)
Tol == PickSeq(st0, 7, <<"1e-8", "1e-8", "1e-4", "1e-11", "0.01", "1e-6">>)
NonNeg == IF n < 0 THEN -n ELSE n
Answers ==
    LET c == CumTo(py, Len(py))
        le == DiffUpto(n, c)
        lt == DiffUpto(n - 1, c)
    IN [pcdf |-> OfX(Upto(px, NonNeg)),
        pmid |-> OfX(Half(Upto(px, NonNeg - 1), Upto(px, NonNeg))),
        vec |-> Tup([k \in 1..SizeV |-> OfX(T(px, k - 1))]),
        frame |-> Tup([k \in 1..(Size0 * Size0) |->
            First(JMul(T(px, (k - 1) \div Size0), T(py, (k - 1) % Size0)))]),
        le |-> First(le), ge |-> First(JSub(One, lt)),
        lt |-> First(lt), gt |-> First(JSub(One, le))]
Rd(q) == RRoundAll(q, 17)
RoundAns(r) == [pcdf |-> Rd(r.pcdf), pmid |-> Rd(r.pmid), vec |-> Rd(r.vec), frame |-> Rd(r.frame),
                le |-> Rd(r.le), ge |-> Rd(r.ge), lt |-> Rd(r.lt), gt |-> Rd(r.gt)]
(* targets of the root finders, at the attained values                                   *)
Targets ==
    LET c == CumTo(py, Len(py))
        lt == JV(DiffUpto(n - 1, c))  gt == RSub(1, JV(DiffUpto(n, c)))
        half == RAdd(JV(DiffUpto(-1, c)), RMul("0.5", RSub(JV(DiffUpto(0, c)), JV(DiffUpto(-1, c)))))
    IN [pois |-> RRound(JV(Upto(px, NonNeg)), 16), lt |-> RRound(lt, 16), gt |-> RRound(gt, 16),
        cond |-> RRound(half, 16),
        (* what no rates can attain: P(D = 0) given b lies above P(Y = 0) / 2 below target *)
        low |-> RRound(RMul("0.5", JV(T(py, 0))), 16)]
Publish ==
    /\ phase = "lay" /\ Laid /\ phase' = "done"
    /\ Emit(OutFile, [id |-> id, a |-> RRound(a, 17), b |-> RRound(b, 17), n |-> n, tol |-> Tol, size |-> Size0, sizev |-> SizeV,
            q |-> IF Kind = "cdf" THEN RoundAns(Answers) ELSE Targets])
    /\ UNCHANGED <<id, a, b, n, px, py>>
Next == Lay \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws ---------------------------------------------------------------------------- *)
Near(x, y) == RNear(x, y, "0.000000000000000000001")
Done == phase = "lay" /\ Laid
NearJ(i, j) == \A q \in 1..3 : Near(Get(i, q), Get(j, q))
Total == Done => NearJ(Upto(px, Len(px)), One) /\ NearJ(Upto(py, Len(py)), One)
(* the derivative of P(D <= m) in a rate moves the threshold by one                       *)
Moves == (Done /\ Kind = "cdf") =>
    LET c == CumTo(py, Len(py))
        le == DiffUpto(n, c) lt == DiffUpto(n - 1, c) le1 == DiffUpto(n + 1, c) IN
    /\ Near(Get(le, 3), RSub(JV(lt), JV(le)))
    /\ Near(Get(le, 2), RSub(JV(le1), JV(le)))
    /\ RLe(0, JV(le)) /\ RLe(JV(lt), RAdd(JV(le), "1e-25")) /\ RLe(JV(le), "1.0000000001")
=============================================================================

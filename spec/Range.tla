-------------------------------- MODULE Range --------------------------------
(***************************************************************************)
(* Parts of a model over the whole range of floating point numbers: tiny and *)
(* huge arguments, long vectors, large counts and weights.  A session visits  *)
(* points one by one; each has one variable, and the answer is the jet of     *)
(* every term (Kind "func"), or of the likelihood of the data of a cell       *)
(* (Kind "like").                                                             *)
(***************************************************************************)
EXTENDS Like

CONSTANTS NSess, Seed, OutFile, Kind

VARIABLES id, part, pts, out, phase
vars == <<id, part, pts, out, phase>>

Pk(st, key, q) == q[1 + (H(st, key) % Len(q))]
st0 == H(Seed, id)
Parts == IF Kind = "func" THEN <<"exp", "log", "logistic", "arctan", "poisson", "lnb", "nb">>
         ELSE <<"poisson", "zip", "logistic", "nb", "finite", "nfinite">>
Sizes == IF Kind = "like" THEN <<1, 2, 5, 20, 30>> ELSE <<1, 2, 5, 12, 20, 21, 25, 60, 170, 171, 172, 200, 260>>
Shapes == <<0, "0.01", "0.5", 1, 1, 3, "7.5", 150, 1000>>

Pow10(k) == IF k >= 0 THEN RPowI(10, k) ELSE RDiv(1, RPowI(10, -k))
Rate(st) == Pk(st, 1, <<"0.0001", "0.02", 1, 5, 40, 170, 500, RRnd(H(st, 2), 1, 9000), RMul(20, RRnd(H(st, 3), 1, 9000))>>)
Signed(st, far) == Pk(st, 1, <<0, "0.00001", "-0.00001", far[1], RNeg(far[1]), far[2], RNeg(far[2]), 20, -20,
                               RRnd(H(st, 2), -9000, 9000), RMul(10, RRnd(H(st, 3), -9000, 9000))>>)
Point(st, k) ==
    IF Kind = "like" THEN
        CASE k = "logistic" -> Signed(st, <<40, 900>>)
          [] k = "poisson" -> Pk(st, 1, <<0, -1, 2, -40, -300, 7, 12, RRnd(H(st, 2), -9000, 9000)>>)
          [] k = "zip" -> Pk(st, 1, <<0, -1, 2, -10, 7, 9, RRnd(H(st, 2), -9000, 9000)>>)
          [] k = "nb" -> Pk(st, 1, <<0, -1, 2, -40, -300, 7, 12, 40, 300, RRnd(H(st, 2), -9000, 9000)>>)
          [] OTHER -> Pk(st, 1, <<"0.0001", "0.02", 1, 5, 40, RRnd(H(st, 2), 1, 9000)>>)
    ELSE CASE k = "exp" -> Signed(st, <<100, 500>>)
           [] k = "log" -> RMul(Pow10(Pk(st, 1, <<0, 1, -1, 8, -8, 140, -140>>)), RRnd(H(st, 2), 100, 9000))
           [] k = "logistic" -> Signed(st, <<40, 900>>)
           [] k = "arctan" -> Signed(st, <<1000, 1000000>>)
           [] OTHER -> Rate(st)
(* observations of a cell, as pairs <<count, weight>>; few or very many of each           *)
Weight(st) == Pk(st, 1, <<0, 1, 1, 3, 1000, 100000, "0.25">>)
Obs(st, k, q) ==
    LET hi == IF k = "logistic" THEN 2 ELSE 1000 IN
    << IF k = "logistic" THEN H(st, q) % 2 ELSE Pk(H(st, q), 2, <<0, 0, 1, 2, 7, 40, 171, hi>>), Weight(H(st, 40 + q)) >>
Cell(st, k) == Tup([q \in 1..(1 + (H(st, 30) % 3)) |-> Obs(st, k, q)])
Weights(st, m) == Tup([q \in 1..m |-> Weight(H(st, q))])
Classes == {"finite", "nfinite"}
Init ==
    /\ id \in 1..NSess /\ phase = "walk" /\ out = <<>> /\ pts = <<>>
    /\ LET k == Parts[1 + (id % Len(Parts))] IN
       part = [k |-> k, size |-> Pk(st0, 1, Sizes), scalar |-> Kind = "func" /\ H(st0, 3) % 4 = 0,
               c |-> LET c == Pk(st0, 2, Shapes) IN IF REq(c, 0) THEN 1 ELSE c,
               len |-> 1 + (H(st0, 4) % 3)]
Terms(x) ==
    CASE part.k = "exp" -> <<JExp(x)>>
      [] part.k = "log" -> <<JLn(x)>>
      [] part.k = "logistic" -> <<JExpit(x)>>
      [] part.k = "arctan" -> <<JAtan(x)>>
      [] part.k = "poisson" -> Tup([q \in 1..part.size |-> Tup(PoissonJ(x, q - 1))])
      [] part.k = "lnb" -> Tup([q \in 1..part.size |-> Tup(LnbJ(x, q - 1, part.c))])
      [] part.k = "nb" -> Tup([q \in 1..part.size |-> Tup(JExp(LnbJ(x, q - 1, part.c)))])
OfData(x, st) ==
    IF part.k \in Classes
    THEN LET w == Weights(H(st, 7), part.size)
             p == Tup([q \in 1..part.size |-> Tup(PoissonJ(x, q - 1))])
             z == IF part.k = "finite" THEN JLn(JSum(p)) ELSE JC(0)
         IN [w |-> w, j |-> Tup(JSum(Tup([q \in 1..part.size |-> JScale(w[q], JSub(JLn(p[q]), z))])))]
    ELSE LET c == Cell(H(st, 7), part.k) IN
         [N |-> WSum(c), X |-> XSum(c), Z |-> ZSum(c),
          j |-> Tup(JAdd(CellLike(part.k, part.c, c, x), JC(CellConst(part.k, part.c, c))))]
Visit ==
    /\ phase = "walk" /\ Len(pts) < (IF part.scalar THEN 1 ELSE part.len)
    /\ LET st == H(st0, 50 + Len(pts))  x == Point(st, part.k)  v == JVar(x, 1, 1) IN
       /\ pts' = Append(pts, x)
       /\ out' = Append(out, IF Kind = "func" THEN Terms(v) ELSE OfData(v, st))
    /\ UNCHANGED <<id, part, phase>>
R17(v) == RRound(v, 17)
Rd(j) == <<R17(Get(j, 1)), R17(Get(j, 2)), R17(Get(j, 3))>>
Publish ==
    /\ phase = "walk" /\ Len(pts) = (IF part.scalar THEN 1 ELSE part.len) /\ phase' = "done"
    /\ Emit(OutFile, [id |-> id, kind |-> Kind, part |-> part, pts |-> Tup([q \in 1..Len(pts) |-> R17(pts[q])]),
            out |-> Tup([q \in 1..Len(out) |->
                IF Kind = "func" THEN Tup([m \in 1..Len(out[q]) |-> Rd(out[q][m])])
                ELSE IF part.k \in Classes THEN [w |-> out[q].w, j |-> Rd(out[q].j)]
                ELSE [N |-> R17(out[q].N), X |-> R17(out[q].X), Z |-> R17(out[q].Z), j |-> Rd(out[q].j)]])])
    /\ UNCHANGED <<id, part, pts, out>>
Next == Visit \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws --------------------------------------------------------------------- *)
Near(a, b) == RNear(a, b, "1e-28")
Rel(a, b) == RLe(RAbs(RSub(a, b)), RMul("1e-28", RAdd(RAbs(a), RAbs(b))))
Defined == phase = "walk" => \A q \in 1..Len(out) :
    IF Kind = "func" THEN \A m \in 1..Len(out[q]), p \in 1..3 : ~RIsNan(Get(out[q][m], p))
    ELSE \A p \in 1..3 : ~RIsNan(Get(out[q].j, p))
(* the derivative of a^k / k! is the term before; e^x is its own derivative; the logistic   *)
(* curve solves s' = s (1 - s)                                                               *)
Laws == (phase = "walk" /\ Kind = "func") => \A q \in 1..Len(out) : \A m \in 1..Len(out[q]) :
    LET j == out[q][m] IN
    CASE part.k = "poisson" -> Rel(Get(j, 2), IF m = 1 THEN 0 ELSE Get(out[q][m - 1], 1))
                                /\ Rel(Get(j, 3), IF m <= 2 THEN 0 ELSE Get(out[q][m - 2], 1))
      [] part.k = "exp" -> Rel(Get(j, 1), Get(j, 2)) /\ Rel(Get(j, 1), Get(j, 3))
      [] part.k = "logistic" -> Near(Get(j, 2), RMul(j[1], RSub(1, j[1]))) /\ RLe(0, j[1]) /\ RLe(j[1], 1)
      [] part.k = "nb" -> RLe(RSum(Tup([p \in 1..m |-> out[q][p][1]])), "1.0000000000000000001")
      [] OTHER -> TRUE
(* log-probabilities are concave in the predictors of the canonical models                     *)
Concave == (phase = "walk" /\ Kind = "like" /\ part.k \in {"poisson", "logistic", "nb"}) =>
    \A q \in 1..Len(out) : RLe(Get(out[q].j, 3), RMul("1e-30", RAdd(1, RAbs(Get(out[q].j, 1)))))
=============================================================================

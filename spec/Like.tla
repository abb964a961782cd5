-------------------------------- MODULE Like --------------------------------
(***************************************************************************)
(* Log-likelihoods of data under a predictor.  The data is a sequence of    *)
(* observations per cell of a grid; the likelihood is the sum over the      *)
(* observations of w * ln P(x | y).  What the library is given are only the  *)
(* aggregates (total weight N, total X, weight of zeros Z), so its value     *)
(* differs by DataConst, which does not involve the predictor.               *)
(* Distributions: poisson, zip, logistic, nb (counts; one predictor per     *)
(* cell), finite, nfinite (classes; one predictor per class).                *)
(***************************************************************************)
EXTENDS Func

Counts == {"poisson", "zip", "logistic", "nb"}

(* ln P(X = x) at predictor y (a jet), c: scale parameter of the distribution *)
LogP(dist, c, x, y) ==
    CASE dist = "poisson" -> JSub(JSub(JScale(x, y), JExp(y)), JC(RLn(RFact(x))))
      [] dist = "zip" ->
            LET z == JLn(JAdd(JExp(JExp(y)), JC(RSub(c, 1)))) IN
            IF x = 0 THEN JSub(JC(IF REq(c, 0) THEN "nan" ELSE RLn(c)), z)
            ELSE JSub(JSub(JScale(x, y), JC(RLn(RFact(x)))), z)
      [] dist = "logistic" ->
            JLn(JExpit(IF x = 1 THEN y ELSE JNeg(y)))     \* 1 - p(y) = p(-y)
      [] dist = "nb" ->      \* mean m = e^y, size c
            LET m == JExp(y) IN
            JSum(<<JC(RSub(RLgamma(RAdd(x, c)), RAdd(RLgamma(c), RLn(RFact(x))))),
                   JScale(c, JLn(JDiv(JC(c), JAdd(m, JC(c))))),
                   JScale(x, JLn(JDiv(m, JAdd(m, JC(c)))))>>)

(* an observation is <<x, w>>; a cell is a sequence of observations           *)
WSum(cell) == RSum(Tup([q \in 1..Len(cell) |-> cell[q][2]]))
XSum(cell) == RSum(Tup([q \in 1..Len(cell) |-> RMul(cell[q][2], cell[q][1])]))
ZSum(cell) == RSum(Tup([q \in 1..Len(cell) |-> IF cell[q][1] = 0 THEN cell[q][2] ELSE 0]))
CellLike(dist, c, cell, y) ==
    JSum(Tup([q \in 1..Len(cell) |-> JScale(cell[q][2], LogP(dist, c, cell[q][1], y))]))

(* constants of the data: those of the observations, and those the library    *)
(* computes from the aggregates                                                *)
ObsConst(dist, c, x) ==
    CASE dist = "poisson" \/ dist = "zip" -> RNeg(RLn(RFact(x)))
      [] dist = "logistic" -> 0
      [] dist = "nb" -> RAdd(RSub(RLgamma(RAdd(x, c)), RAdd(RLgamma(c), RLn(RFact(x)))), RMul(c, RLn(c)))
AggConst(dist, c, X) ==
    CASE dist = "poisson" \/ dist = "zip" -> RNeg(RLgamma(RAdd(X, 1)))
      [] dist = "logistic" -> 0
      [] dist = "nb" -> RAdd(RSub(RLgamma(RAdd(X, c)), RAdd(RLgamma(c), RLgamma(RAdd(X, 1)))), RMul(c, RLn(c)))
CellConst(dist, c, cell) ==
    RSub(AggConst(dist, c, XSum(cell)),
         RSum(Tup([q \in 1..Len(cell) |-> RMul(cell[q][2], ObsConst(dist, c, cell[q][1]))])))

(* grid of cells against the predictor, broadcast                              *)
Cells(data) == [sh |-> data.sh, v |-> Tup([q \in 1..Len(data.v) |-> q])]
LikeCounts(dist, c, data, v) ==
    LET y == Broadcast(v.a, data.sh) IN
    JSum(Tup([q \in 1..Len(data.v) |-> CellLike(dist, c, data.v[q], y.v[q])]))
ConstCounts(dist, c, data) ==
    RSum(Tup([q \in 1..Len(data.v) |-> CellConst(dist, c, data.v[q])]))

(* classes: data has the value axes of v; P(u) = v_u / sum of v over the        *)
(* classes (finite) or v_u (nfinite); an observation <<1, w>> in class u         *)
LikeClasses(dist, data, v) ==
    LET nd == v.d  n == v.n
        m == Size(Sub(data.sh, n + 1, n + nd))           \* classes per cell
        nf == Size(Sub(data.sh, 1, n))
        y == Broadcast(v.a, data.sh)
        cls(f, u) == y.v[(f - 1) * m + u]
        zf == Tup([f \in 1..nf |-> IF dist = "nfinite" THEN JC(0)
                     ELSE JLn(JSum(Tup([u \in 1..m |-> cls(f, u)])))])
    IN JSum(Tup([f \in 1..nf |->
            JSum(Tup([u \in 1..m |->
                LET w == WSum(data.v[(f - 1) * m + u]) IN
                IF REq(w, 0) THEN JC(0)
                ELSE JScale(w, JSub(JLn(cls(f, u)), zf[f]))]))]))

LikeOf(dist, c, data, v) ==
    IF dist \in Counts THEN LikeCounts(dist, c, data, v) ELSE LikeClasses(dist, data, v)
ConstOf(dist, c, data) == IF dist \in Counts THEN ConstCounts(dist, c, data) ELSE 0
Merge2(d1, d2) == [sh |-> d1.sh, v |-> Tup([q \in 1..Len(d1.v) |-> d1.v[q] \o d2.v[q]])]
Grid(data, F(_)) == [sh |-> data.sh, v |-> Tup([q \in 1..Len(data.v) |-> F(data.v[q])])]
=============================================================================

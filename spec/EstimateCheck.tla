---------------------------- MODULE EstimateCheck ----------------------------
(***************************************************************************)
(* Trace validation of fits that reported success.  At the estimates, mapped *)
(* back to the original labelling, the exact penalised likelihood of the      *)
(* original data has to be stationary on the constraints: the exact Newton     *)
(* correction of estimates and multipliers is negligible, the constraints      *)
(* hold, fixed entries are where they were; for the canonical models the        *)
(* fitted totals reproduce the observed ones.                                   *)
(***************************************************************************)
EXTENDS Like, MatR, TLC, Json

CONSTANTS InFile, OutFile

VARIABLES k, done
Recs == ndJsonDeserialize(InFile)
(* r: sh, prm, ax, dist, c, nodes, f, con, reg, mask, atoms, cells; perm, est, start  *)

InvP(q) == Tup([j \in 1..Len(q) |-> CHOOSE z \in 1..Len(q) : q[z] = j])
Back(a, ps) == Mk(a.sh, LAMBDA ix : At(a, Tup([j \in 1..Len(ix) |-> ps[j][ix[j]]])))
Original(r, xs) == Tup([p \in 1..Len(r.prm) |->
    Back([sh |-> r.prm[p], v |-> xs[p]], Tup([j \in 1..Len(r.ax[p]) |-> r.perm[r.ax[p][j]]]))])
RECURSIVE Cat(_, _)
Cat(q, n) == IF n = 0 THEN <<>> ELSE Cat(q, n - 1) \o q[n]
RECURSIVE Wh(_, _)              \* positions of the free entries
Wh(q, n) == IF n = 0 THEN <<>> ELSE IF q[n] THEN Wh(q, n - 1) ELSE Append(Wh(q, n - 1), n)

RegV(r, x, q) == LET t == r.reg[q] IN
    JSum(Tup([z \in 1..Len(x[t.p].a.v) |->
        LET y == JScale(RDiv(1, t.sc), JSub(x[t.p].a.v[z], JC(t.u))) IN JMul(y, y)]))
ConV(r, x, q) == LET t == r.con[q] IN
    JSub(JSum(Tup([j \in 1..Len(t.ps) |->
        JSum(Tup([z \in 1..Len(t.ws[j].v) |-> JScale(t.ws[j].v[z], x[t.ps[j]].a.v[z])]))])), JC(t.c))
MaxAbs(q) == LET RECURSIVE f(_)
                 f(n) == IF n = 0 THEN 0 ELSE LET m == f(n - 1) IN IF RLt(m, RAbs(q[n])) THEN RAbs(q[n]) ELSE m
             IN f(Len(q))
(* fitted and observed totals over the cells an entry of a parameter contributes to;  *)
(* only for parameters used once, as themselves, free of constraints and penalties     *)
Mean(dist, y) == IF dist = "poisson" THEN RExp(y) ELSE RDiv(1, RAdd(1, RExp(RNeg(y))))
Uses(r, p) == {q \in 1..Len(r.atoms) : \E j \in 1..Len(r.atoms[q].pm) : r.atoms[q].pm[j] + 1 = p}
Pure(r, p) == /\ r.dist \in {"poisson", "logistic"}
              /\ Cardinality(Uses(r, p)) = 1
              /\ \A q \in Uses(r, p) : r.nodes[r.atoms[q].e].k = "x"
              /\ \A q \in 1..Len(r.con) : \A j \in 1..Len(r.con[q].ps) : r.con[q].ps[j] # p
              /\ \A q \in 1..Len(r.reg) : r.reg[q].p # p
Totals(r, v) ==                 \* largest relative gap
    LET y == Broadcast(v.a, r.cells.sh)
        gap(p, z) ==
            LET at == Unravel(r.prm[p], z)
                in(c) == LET ix == Unravel(r.cells.sh, c) IN
                         \A j \in 1..Len(r.ax[p]) : ix[r.ax[p][j]] = at[j]
                S == Tup([c \in 1..Len(r.cells.v) |-> IF in(c) THEN
                        RSub(XSum(r.cells.v[c]), RMul(WSum(r.cells.v[c]), Mean(r.dist, y.v[c][1]))) ELSE 0])
                X == Tup([c \in 1..Len(r.cells.v) |-> IF in(c) THEN XSum(r.cells.v[c]) ELSE 0])
            IN RDiv(RAbs(RSum(S)), RAdd(1, RSum(X)))
        all == Cat(Tup([p \in 1..Len(r.prm) |-> IF ~Pure(r, p) THEN <<>>
                     ELSE Tup([z \in 1..Len(r.mask[p]) |-> IF r.mask[p][z] THEN 0 ELSE gap(p, z)])]), Len(r.prm))
    IN MaxAbs(all)

Judge(r) ==
    LET est == Original(r, r.est)
        x == VarArgs(est)
        n == NumVars(est)
        v == Ev(r.nodes, r.f, x)
        J == JSub(LikeOf(r.dist, r.c, r.cells, v), JSum(Tup([q \in 1..Len(r.reg) |-> RegV(r, x, q)])))
        C == Tup([q \in 1..Len(r.con) |-> ConV(r, x, q)])
        nc == Len(C)
        fr == Wh(Cat(r.mask, Len(r.mask)), n)
        nf == Len(fr)
        K == MatOf(nf + nc, nf + nc, LAMBDA i, j :
                IF i <= nf /\ j <= nf THEN JH(J, n, fr[IF i >= j THEN i ELSE j], fr[IF i >= j THEN j ELSE i])
                ELSE IF i <= nf THEN JG(C[j - nf], fr[i])
                ELSE IF j <= nf THEN JG(C[i - nf], fr[j]) ELSE 0)
        rhs == Tup([i \in 1..(nf + nc) |-> IF i <= nf THEN JG(J, fr[i]) ELSE C[i - nf][1]])
        V == Inverse(K, "1e-12")
        flat == Cat(Tup([p \in 1..Len(est) |-> est[p].v]), Len(est))
        st == Original(r, r.start)
        sflat == Cat(Tup([p \in 1..Len(st) |-> st[p].v]), Len(st))
        fm == Cat(r.mask, Len(r.mask))
    IN IF RIsNan(J[1]) THEN [i |-> r.i, ok |-> TRUE, why |-> "outside"]      \* of the specified domain
       ELSE IF V = <<>> THEN [i |-> r.i, ok |-> TRUE, why |-> "singular"]
       ELSE LET step == MatVec(V, rhs)
                dx == RDiv(MaxAbs(Sub(step, 1, nf)), RAdd(1, MaxAbs(flat)))
                cs == MaxAbs(Tup([q \in 1..nc |-> C[q][1]]))
                tot == Totals(r, v)
                fx == \A q \in 1..n : fm[q] => RNear(flat[q], sflat[q], "1e-14")
            IN [i |-> r.i, ok |-> RLe(dx, r.tol) /\ RLe(cs, r.ctol) /\ fx /\ RLe(tot, r.ttol),
                dx |-> RRound(dx, 4), cs |-> RRound(cs, 4), tot |-> RRound(tot, 4), fixed |-> fx,
                why |-> IF ~fx THEN "fixed entries moved" ELSE IF ~RLe(cs, r.ctol) THEN "constraints violated"
                        ELSE IF ~RLe(dx, r.tol) THEN "not stationary" ELSE "totals"]
Init == k \in 1..Len(Recs) /\ done = FALSE
Check == ~done /\ done' = TRUE /\ k' = k /\ Emit(OutFile, Judge(Recs[k]))
Spec == Init /\ [][Check]_<<k, done>>
=============================================================================

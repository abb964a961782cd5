------------------------------ MODULE Estimate ------------------------------
(***************************************************************************)
(* A fitting session on one data set.  A canonical design (additive effects  *)
(* of the features, identified by constraints, fixed entries or penalties)   *)
(* and observations are drawn; the representation of the data is then         *)
(* transformed (categories relabelled, rows reordered, split, duplicated),     *)
(* starting points and methods vary, and the model is fitted after every       *)
(* transformation.  Every fit estimates the same point up to the relabelling:   *)
(* EstimateCheck.tla decides the recorded answers.                              *)
(***************************************************************************)
EXTENDS FuncGen, Like

CONSTANTS NSess, Seed, OutFile, MaxFits

VARIABLES id, s, phase, d, rows, perm, mult, start, fits
vars == <<id, s, phase, d, rows, perm, mult, start, fits>>
(* d: the design; rows: observations [l: labels, x, w] in the present           *)
(* representation; perm: present position of every category of every axis;       *)
(* mult: how often each observation is repeated; start: of the next fit           *)

(* ---- designs ---------------------------------------------------------------- *)
NX == [k |-> "x"]
NVec(c) == [k |-> "vector", c |-> c]
Atom(e, pm, fm, w) == [e |-> e, pm |-> pm, fm |-> fm, dm |-> <<>>, w |-> w]
(* t: prm: shapes, ax: axis of every dimension of every parameter, vec: the       *)
(* covariate node or <<>>, atoms, red: parameters to be identified, cov: axes      *)
(* carrying a covariate                                                            *)
Axes1(K) == Tup([j \in 1..K |-> <<j>>])
Mains(st, sh) ==
    LET K == Len(sh)  ic == Chance(st, 1, 1, 2)
        free == IF ic THEN 0 ELSE 1 + R(st, 2, K)
    IN [prm |-> Tup([j \in 1..K |-> <<sh[j]>>]) \o (IF ic THEN << <<>> >> ELSE <<>>),
        ax |-> Axes1(K) \o (IF ic THEN << <<>> >> ELSE <<>>), vec |-> <<>>, cov |-> {},
        atoms |-> Tup([j \in 1..K |-> Atom(1, <<j - 1>>, <<j - 1>>, PickSeq(st, 10 + j, <<1, 1, -1, 2>>))])
                  \o (IF ic THEN <<Atom(1, <<K>>, <<>>, 1)>> ELSE <<>>),
        red |-> {j \in 1..K : j # free}]
Paired(st, sh) ==               \* one parameter on two axes: a[i] - a[j] + h
    LET K == Len(sh) IN
    [prm |-> << <<sh[1]>>, <<>> >> \o (IF K = 3 THEN << <<sh[3]>> >> ELSE <<>>),
     ax |-> << <<1>>, <<>> >> \o (IF K = 3 THEN << <<3>> >> ELSE <<>>), vec |-> <<>>, cov |-> {},
     atoms |-> <<Atom(1, <<0>>, <<0>>, 1), Atom(1, <<0>>, <<1>>, -1), Atom(1, <<1>>, <<>>, 1)>>
               \o (IF K = 3 THEN <<Atom(1, <<2>>, <<2>>, 1)>> ELSE <<>>),
     red |-> {1} \union (IF K = 3 THEN {3} ELSE {})]
Interact(st, sh) ==
    LET K == Len(sh)  tr == Chance(st, 1, 1, 2)
        ix == IF tr THEN <<2, 1>> ELSE <<1, 2>>
    IN [prm |-> << <<sh[ix[1]], sh[ix[2]]>> >> \o (IF K = 3 THEN << <<sh[3]>> >> ELSE <<>>),
        ax |-> <<ix>> \o (IF K = 3 THEN << <<3>> >> ELSE <<>>), vec |-> <<>>, cov |-> {},
        atoms |-> <<Atom(1, <<0>>, <<ix[1] - 1, ix[2] - 1>>, 1)>>
                  \o (IF K = 3 THEN <<Atom(1, <<1>>, <<2>>, 1)>> ELSE <<>>),
        red |-> IF K = 3 THEN {2} ELSE {}]
Covariate(st, sh) ==            \* slope along the last axis, main effects on the others
    LET K == Len(sh)
        c == [sh |-> <<sh[K]>>, v |-> Sub(PickSeq(st, 3, <<<<-1, "0.5", 1, "1.5">>, <<0, 1, "0.5", 2>>>>), 1, sh[K])]
    IN [prm |-> << <<>> >> \o (IF K = 1 THEN << <<>> >> ELSE Tup([j \in 1..(K - 1) |-> <<sh[j]>>])),
        ax |-> << <<>> >> \o (IF K = 1 THEN << <<>> >> ELSE Axes1(K - 1)), vec |-> c, cov |-> {K},
        atoms |-> <<Atom(2, <<0>>, <<K - 1>>, 1)>>
                  \o (IF K = 1 THEN <<Atom(1, <<1>>, <<>>, 1)>>
                      ELSE Tup([j \in 1..(K - 1) |-> Atom(1, <<j>>, <<j - 1>>, 1)])),
        red |-> 3..K]
Template(st, sh) ==
    LET K == Len(sh)
        c == PickSeq(st, 1, IF K = 1 THEN <<"mains", "cov">>
                            ELSE IF sh[1] = sh[2] THEN <<"mains", "paired", "paired", "inter", "cov">>
                            ELSE <<"mains", "mains", "inter", "cov">>)
    IN CASE c = "mains" -> Mains(H(st, 2), sh) [] c = "paired" -> Paired(H(st, 2), sh)
         [] c = "inter" -> Interact(H(st, 2), sh) [] c = "cov" -> Covariate(H(st, 2), sh)

(* a term is a function node list relative to the design and its parameters         *)
UnitArr(sh) == [sh |-> sh, v |-> Tup([q \in 1..Size(sh) |-> 1])]
Wts(st, sh) == IF Chance(st, 1, 1, 2) THEN UnitArr(sh) ELSE RArr(H(st, 2), sh, 300, 1800)
Con(st, t, S) ==                \* sum of the weighted entries of parameters S equals c
    [ps |-> S, ws |-> Tup([j \in 1..Len(S) |-> Wts(H(st, j), t.prm[S[j]])]),
     c |-> PickSeq(st, 9, <<0, 0, 1, "-0.5">>)]
Ident(st, t) ==
    LET how == Tup([j \in 1..Len(t.prm) |-> IF j \in t.red THEN PickSeq(st, j, <<"con", "con", "fix", "reg">>)
                        ELSE IF Len(t.prm[j]) = 0 THEN PickSeq(st, j, <<"-", "-", "-", "reg">>)
                        ELSE PickSeq(st, j, <<"-", "-", "-", "fix", "reg", "con">>)])
        free == {j \in 1..Len(t.prm) : how[j] # "con"}
        cross == IF Cardinality(free) >= 2 /\ Chance(st, 30, 1, 3)
                 THEN LET a == PickSet(st, 31, free) IN <<Con(H(st, 33), t, <<a, PickSet(st, 32, free \ {a})>>)>>
                 ELSE <<>>
        cs == ToSeq({j \in 1..Len(t.prm) : how[j] = "con"})
    IN [con |-> Tup([q \in 1..Len(cs) |-> Con(H(st, 40 + q), t, <<cs[q]>>)]) \o cross,
        reg |-> LET rs == ToSeq({j \in 1..Len(t.prm) : how[j] = "reg"}) IN
                Tup([q \in 1..Len(rs) |-> [p |-> rs[q], u |-> PickSeq(st, 50 + q, <<0, "0.5">>),
                                            sc |-> PickSeq(st, 60 + q, <<1, 2>>)]]),
        mask |-> Tup([j \in 1..Len(t.prm) |->
            LET z == 1 + R(st, 70 + j, Size(t.prm[j])) IN
            Tup([q \in 1..Size(t.prm[j]) |-> how[j] = "fix" /\ q = z])])]

(* ---- starting points: drawn, then projected onto the constraints -------------------- *)
Vals(x, m, ps) == Tup([j \in 1..Len(ps) |-> x[ps[j]]])
RECURSIVE Project(_, _, _)
Project(x, g, q) ==
    IF q = 0 THEN x
    ELSE LET y == Project(x, g, q - 1)
             c == g.con[q]
             res == RSub(c.c, RSum(Tup([j \in 1..Len(c.ps) |-> RDot(c.ws[j].v, y[c.ps[j]].v)])))
             fw(j) == Tup([z \in 1..Len(c.ws[j].v) |-> IF g.mask[c.ps[j]][z] THEN 0 ELSE c.ws[j].v[z]])
             nn == RSum(Tup([j \in 1..Len(c.ps) |-> RDot(fw(j), fw(j))]))
             at(p) == LET S == {j \in 1..Len(c.ps) : c.ps[j] = p} IN
                      IF S = {} THEN y[p]
                      ELSE LET j == CHOOSE j \in S : TRUE IN
                           [sh |-> y[p].sh, v |-> Tup([z \in 1..Len(y[p].v) |->
                               RAdd(y[p].v[z], RDiv(RMul(res, fw(j)[z]), nn))])]
         IN Tup([p \in 1..Len(y) |-> at(p)])
Fixed == 300
Starting(st, g) ==
    LET x == Tup([p \in 1..Len(g.prm) |->
               LET a == IF Chance(st, 5, 1, 4) THEN [sh |-> g.prm[p], v |-> Tup([z \in 1..Size(g.prm[p]) |-> 0])]
                        ELSE RArr(H(st, p), g.prm[p], -700, 700)
                   f == RArr(H(g.fs, p), g.prm[p], -600, 600)
               IN [sh |-> a.sh, v |-> Tup([z \in 1..Len(a.v) |-> IF g.mask[p][z] THEN f.v[z] ELSE a.v[z]])]])
    IN Project(x, g, Len(g.con))

(* ---- the session -------------------------------------------------------------------- *)
Shapes == <<<<2>>, <<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<4, 2>>, <<2, 4>>,
            <<2, 2, 2>>, <<2, 2, 3>>, <<3, 2, 2>>>>
Dists == <<"poisson", "poisson", "zip", "logistic", "nb", "finite", "nfinite">>
Design(st) ==
    LET dist == PickSeq(st, 4, Dists)
        sh == PickSeq(st, 1, IF dist = "nfinite" THEN Sub(Shapes, 1, 3) ELSE Shapes)
        t == Template(H(st, 2), sh)
        g == Ident(H(st, 3), t)
        m == IF dist = "finite" THEN 2 + R(st, 5, 3) ELSE IF dist = "nfinite" THEN 4 ELSE 0
        n0 == <<NX>> \o (IF t.vec = <<>> THEN <<>> ELSE <<NVec(t.vec)>>)
        n1 == Append(n0, [k |-> "sum", nf |-> Len(sh), nd |-> 0, atoms |-> t.atoms])
        b == Len(n1)
        n2 == CASE dist = "finite" -> n1 \o <<[k |-> "exp"], [k |-> "compose", f |-> b + 1, g |-> <<b>>],
                                              [k |-> "poisson", size |-> m], [k |-> "compose", f |-> b + 3, g |-> <<b + 2>>]>>
                [] dist = "nfinite" -> n1 \o <<[k |-> "logistic"], [k |-> "compose", f |-> b + 1, g |-> <<b>>],
                                              [k |-> "game"], [k |-> "compose", f |-> b + 3, g |-> <<b + 2>>]>>
                [] OTHER -> n1
    IN [sh |-> sh, prm |-> t.prm, ax |-> t.ax, cov |-> t.cov, atoms |-> t.atoms, paired |-> Len(t.atoms) > 1 /\ t.atoms[1].pm = t.atoms[2].pm,
        dist |-> dist, c |-> PickSeq(st, 6, <<1, 2, "2.5">>), m |-> m, nodes |-> n2, f |-> Len(n2),
        con |-> g.con, reg |-> g.reg, mask |-> g.mask, fs |-> H(st, 7),
        frame |-> IF dist \in {"finite", "nfinite", "zip"} THEN FALSE ELSE Chance(st, 8, 1, 2)]
None == [sh |-> <<>>]
Ident1(n) == Tup([j \in 1..n |-> j])
Init == /\ id \in 1..NSess /\ s = H(Seed, id) /\ phase = "design" /\ d = None
        /\ rows = <<>> /\ perm = <<>> /\ mult = 1 /\ start = <<>> /\ fits = <<>>
ChooseDesign ==
    /\ phase = "design" /\ phase' = "data"
    /\ d' = Design(s)
    /\ perm' = Tup([j \in 1..Len(d'.sh) |-> Ident1(d'.sh[j])])
    /\ start' = Starting(H(s, 1), d')
    /\ s' = H(s, 3) /\ UNCHANGED <<id, rows, mult, fits>>

(* every cell gets observations with interior statistics                                 *)
Classes == d.dist \in {"finite", "nfinite"}
WOf(st) == IF d.frame \/ Classes THEN PickSeq(st, 1, <<1, 1, 2, "0.5", 3>>) ELSE 1
CellRows(st, ix) ==
    LET xs == CASE d.dist = "logistic" -> <<0, 1>> \o (IF Chance(st, 1, 1, 2) THEN <<R(st, 2, 2)>> ELSE <<>>)
                [] Classes -> <<0, d.m - 1>> \o (IF Chance(st, 1, 1, 2) THEN <<R(st, 2, d.m)>> ELSE <<>>)
                [] OTHER -> <<1 + R(st, 3, 4)>> \o (IF Chance(st, 1, 1, 2) THEN <<R(st, 2, 5)>> ELSE <<>>)
                            \o (IF Chance(st, 4, 1, 3) THEN <<0>> ELSE <<>>)
    IN Tup([q \in 1..Len(xs) |-> [l |-> ix, x |-> xs[q], w |-> WOf(H(st, 20 + q))]])
RECURSIVE AllRows(_, _)
AllRows(st, q) == IF q = 0 THEN <<>> ELSE AllRows(st, q - 1) \o CellRows(H(st, q), Unravel(d.sh, q))
ObserveAll ==
    /\ phase = "data" /\ phase' = "fit"
    /\ rows' = AllRows(s, Size(d.sh))
    /\ s' = H(s, 3) /\ UNCHANGED <<id, d, perm, mult, start, fits>>

(* ---- the present representation of arrays over the parameters -------------------------- *)
PermP(p) == Tup([j \in 1..Len(d.ax[p]) |-> perm[d.ax[p][j]]])
InvP(q) == Tup([j \in 1..Len(q) |-> CHOOSE z \in 1..Len(q) : q[z] = j])
PermArr(a, ps) ==               \* r[ps(ix)] = a[ix]
    LET inv == Tup([j \in 1..Len(ps) |-> InvP(ps[j])]) IN
    Mk(a.sh, LAMBDA ix : At(a, Tup([j \in 1..Len(ix) |-> inv[j][ix[j]]])))
ToPresent(p, a) == PermArr(a, PermP(p))
(* number the constraints and penalties as further function nodes                            *)
ConNodes(q) == <<[k |-> "linear", ws |-> Tup([j \in 1..Len(d.con[q].ps) |->
                       ToPresent(d.con[q].ps[j], d.con[q].ws[j])])],
                 [k |-> "aff", f |-> "sub", e |-> 0, c |-> d.con[q].c]>>
Event(meth, reuse) ==
    [meth |-> meth, reuse |-> reuse, perm |-> perm, mult |-> mult, rows |-> rows,
     start |-> Tup([p \in 1..Len(start) |-> RRoundAll(ToPresent(p, start[p]).v, 17)]),
     mask |-> Tup([p \in 1..Len(start) |->
                 ToPresent(p, [sh |-> d.prm[p], v |-> d.mask[p]]).v]),
     con |-> Tup([q \in 1..Len(d.con) |-> [nodes |-> ConNodes(q), pm |-> Tup([j \in 1..Len(d.con[q].ps) |-> d.con[q].ps[j] - 1])]])]
(* a model may be fitted again to relabelled data when relabelling leaves its constraints  *)
(* as they are: its previous estimates are then just another feasible starting point       *)
Portable(e) ==
    LET n == Event(e.meth, FALSE) IN
    /\ \A p \in 1..Len(e.mask) : \A z \in 1..Len(e.mask[p]) : ~e.mask[p][z]
    /\ \A q \in 1..Len(e.con) : \A j \in 1..Len(e.con[q].nodes[1].ws) :
         LET a == e.con[q].nodes[1].ws[j].v  b == n.con[q].nodes[1].ws[j].v IN
         \A z \in 1..Len(a) : REq(a[z], b[z])
Fit ==
    /\ phase = "fit" /\ Len(fits) < MaxFits
    /\ LET n == Len(fits)
           meth == IF n = 0 THEN "newton" ELSE PickSeq(s, 1, <<"newton", "newton", "broyden">>)
           reuse == n > 0 /\ (fits[n].perm = perm \/ Portable(fits[n])) /\ Chance(s, 2, 1, 2)
       IN fits' = Append(fits, Event(meth, reuse))
    /\ phase' = "vary"
    /\ s' = H(s, 3) /\ UNCHANGED <<id, d, rows, perm, mult, start>>

(* ---- transformations ---------------------------------------------------------------------- *)
Perm1(st, n) == LET q == RInj(st, n, n) IN Tup([j \in 1..n |-> q[j] + 1])
Relabel ==
    LET new == Tup([j \in 1..Len(d.sh) |-> IF j \in d.cov THEN Ident1(d.sh[j])
                        ELSE Perm1(H(s, IF d.paired /\ j = 2 THEN 101 ELSE 100 + j), d.sh[j])])
    IN /\ perm' = Tup([j \in 1..Len(d.sh) |-> Tup([z \in 1..d.sh[j] |-> new[j][perm[j][z]]])])
       /\ rows' = Tup([q \in 1..Len(rows) |-> [rows[q] EXCEPT
                     !.l = Tup([j \in 1..Len(d.sh) |-> new[j][rows[q].l[j]]])]])
       /\ UNCHANGED <<mult, start>>
Reorder ==
    LET n == Len(rows)  r == R(s, 5, n)  back == Chance(s, 6, 1, 2)
        g == IF n % 7 = 0 THEN 11 ELSE 7                  \* a stride coprime to n
    IN /\ rows' = Tup([q \in 1..n |-> LET z == ((IF back THEN n - q ELSE q) * g + r) % n IN rows[z + 1]])
       /\ UNCHANGED <<perm, mult, start>>
Duplicate == /\ d.reg = <<>> /\ mult = 1 /\ mult' = 2 + R(s, 7, 2)
             /\ rows' = Tup([q \in 1..(Len(rows) * mult') |-> rows[((q - 1) \div mult') + 1]])
             /\ UNCHANGED <<perm, start>>
Split == /\ d.frame \/ Classes
         /\ rows' = Tup([q \in 1..(2 * Len(rows)) |-> LET o == rows[((q - 1) \div 2) + 1] IN
                      IF Chance(s, 200 + ((q - 1) \div 2), 1, 2)
                      THEN [o EXCEPT !.w = IF q % 2 = 1 THEN o.w ELSE 0]
                      ELSE [o EXCEPT !.w = RMul(IF q % 2 = 1 THEN "0.25" ELSE "0.75", o.w)]])
         /\ UNCHANGED <<perm, mult>> /\ UNCHANGED start
Restart == start' = Starting(H(s, 8), d) /\ UNCHANGED <<rows, perm, mult>>
Vary ==
    /\ phase = "vary" /\ Len(fits) < MaxFits
    /\ LET v == PickSeq(s, 1, <<"relabel", "relabel", "reorder", "duplicate", "split", "restart">>) IN
       CASE v = "relabel" -> Relabel
         [] v = "reorder" -> Reorder
         [] v = "duplicate" -> IF d.reg = <<>> /\ mult = 1 THEN Duplicate ELSE Restart
         [] v = "split" -> IF (d.frame \/ Classes) /\ Len(rows) < 80 THEN Split ELSE Reorder
         [] v = "restart" -> Restart
    /\ phase' = IF Chance(s, 9, 1, 3) THEN "vary" ELSE "fit"
    /\ s' = H(s, 3) /\ UNCHANGED <<id, d, fits>>
BaseCells ==                    \* observations per cell, in the original labelling, once each
    LET inv == Tup([j \in 1..Len(perm) |-> InvP(perm[j])])
        orig(o) == Tup([j \in 1..Len(o.l) |-> inv[j][o.l[j]]])
        pos == Tup([q \in 1..Len(rows) |-> LET c == Ravel(d.sh, orig(rows[q])) IN
                  IF Classes THEN (c - 1) * d.m + rows[q].x + 1 ELSE c])
        sh == IF Classes THEN Append(d.sh, d.m) ELSE d.sh
    IN [sh |-> sh, v |-> Tup([c \in 1..Size(sh) |->
            LET S == ToSeq({q \in 1..Len(rows) : pos[q] = c}) IN
            Tup([z \in 1..Len(S) |-> <<IF Classes THEN 1 ELSE rows[S[z]].x, RDiv(rows[S[z]].w, mult)>>])])]
Stat(cells) == Tup([q \in 1..Len(cells.v) |-> <<WSum(cells.v[q]), XSum(cells.v[q]), ZSum(cells.v[q])>>])
Publish ==
    /\ phase = "vary" /\ Len(fits) = MaxFits /\ phase' = "done"
    /\ Emit(OutFile, [id |-> id, sh |-> d.sh, prm |-> d.prm, ax |-> d.ax, dist |-> d.dist, c |-> d.c, m |-> d.m,
            nodes |-> d.nodes, f |-> d.f, con |-> d.con, reg |-> d.reg, mask |-> d.mask, atoms |-> d.atoms,
            frame |-> d.frame, cells |-> BaseCells, fits |-> fits])
    /\ UNCHANGED <<id, s, d, rows, perm, mult, start, fits>>
Next == ChooseDesign \/ ObserveAll \/ Fit \/ Vary \/ Publish
Spec == Init /\ [][Next]_vars

(* no transformation changes the data or the constraints' satisfaction                          *)
SameData ==
    phase \in {"vary", "fit"} /\ fits # <<>> =>
      LET now == Stat(BaseCells)
      IN /\ \A q \in 1..Len(now) : d.dist = "logistic" => RLt(0, now[q][2]) /\ RLt(now[q][2], now[q][1])
         /\ RNear(RSum(Tup([q \in 1..Len(now) |-> now[q][1]])),
                  RSum(Tup([q \in 1..Len(fits[1].rows) |-> fits[1].rows[q].w])), "1e-20")
         /\ RNear(RSum(Tup([q \in 1..Len(now) |-> RMul(q, now[q][2])])),
                  RSum(Tup([q \in 1..Len(fits[1].rows) |->
                      RMul(fits[1].rows[q].w, RMul(Ravel(d.sh, fits[1].rows[q].l), IF Classes THEN 0 ELSE fits[1].rows[q].x))])), "1e-20")
            \/ Classes
Feasible ==
    phase # "design" =>
      \A q \in 1..Len(d.con) :
        RNear(RSum(Tup([j \in 1..Len(d.con[q].ps) |-> RDot(d.con[q].ws[j].v, start[d.con[q].ps[j]].v)])),
              d.con[q].c, "1e-20")
=============================================================================

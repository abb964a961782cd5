------------------------------ MODULE FuncGen ------------------------------
(***************************************************************************)
(* Random construction of model functions.  An entry is a node (see Func)  *)
(* plus pm, the sequence of global parameters its arguments stand for, and  *)
(* its value v as an array of jets over its own arguments.                  *)
(***************************************************************************)
EXTENDS Func, TLC

CONSTANTS MaxVars, MaxCells

R(st, key, n) == H(st, key) % n                 \* 0 .. n-1
Chance(st, key, num, den) == R(st, key, den) < num
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                     IN <<m>> \o ToSeq(S \ {m})
PickSet(st, key, S) == PickSeq(st, key, ToSeq(S))
RECURSIVE RInj(_, _, _)
RInj(st, n, m) == IF n = 0 THEN <<>>
    ELSE LET pre == RInj(st, n - 1, m)
             c == {w \in 0..(m - 1) : \A j \in 1..Len(pre) : pre[j] # w}
         IN Append(pre, PickSet(st, 300 + n, c))
RArr(st, sh, lo, hi) == [sh |-> sh, v |-> Tup([q \in 1..Size(sh) |-> RRnd(H(st, 40 + q), lo, hi)])]

(* global parameters: 1 a number, 2 and 3 of one shape, 4 and 5 of another,      *)
(* 6 a matrix; 3, 5, 6 lie in (0, 1)                                              *)
Large == MaxVars > 12                                   \* longer parameters
MkGlobals(st) ==
    LET one == ~Large /\ Chance(st, 5, 1, 10)           \* every category axis has one label
        a == <<IF one THEN 1 ELSE IF Large THEN 4 + R(st, 1, 8) ELSE 2 + R(st, 1, 2)>>
        b == IF Chance(st, 2, 1, 3) THEN <<>> ELSE <<IF one THEN 1 ELSE IF Large THEN 3 + R(st, 3, 5) ELSE 2 + R(st, 3, 2)>>
        m == IF one THEN <<1, 1>> ELSE IF Large THEN PickSeq(st, 4, <<<<3, 4>>, <<5, 2>>, <<2, 7>>>>)
             ELSE PickSeq(st, 4, <<<<2, 2>>, <<2, 3>>, <<3, 2>>>>)
        (* now and then some or all entries are whole numbers, most often zero          *)
        special(key, arr) ==
            IF ~Chance(st, key, 1, 5) THEN arr
            ELSE [arr EXCEPT !.v = Tup([q \in 1..Len(arr.v) |->
                    IF Chance(st, key + 1, 1, 2) \/ Chance(st, key + 1 + q, 1, 2)
                    THEN IF Chance(st, key + 20, 1, 2) THEN 0 ELSE PickSeq(st, key + 20 + q, <<0, 0, 1, -1, 2>>)
                    ELSE arr.v[q]])]
    IN << special(100, RArr(H(st, 11), <<>>, -1200, 1200)), special(200, RArr(H(st, 12), a, -1200, 1200)),
          RArr(H(st, 13), a, 100, 900), special(300, RArr(H(st, 14), b, -900, 1100)),
          RArr(H(st, 15), b, 150, 850), RArr(H(st, 16), m, 120, 880) >>
Prob == {3, 5, 6}
Single(gl) == gl[2].sh = <<1>>

ArgsOf(gl, pm) == Tup([j \in 1..Len(pm) |-> gl[pm[j]]])
Bound == 200000
(* size of the evaluation of a function and its derivatives when shared parts are  *)
(* evaluated anew at every use                                                    *)
RECURSIVE Cost(_, _)
Cost(P, i) ==
    LET e == P[i]
        RECURSIVE tot(_, _)
        tot(q, j) == IF j = 0 THEN 0 ELSE tot(q, j - 1) + Cost(P, q[j])
    IN CASE e.k \in {"aff", "affine", "wrap", "collapse"} -> 1 + Cost(P, e.e)
         [] e.k = "sum" -> 1 + tot([j \in 1..Len(e.atoms) |-> e.atoms[j].e], Len(e.atoms))
         [] e.k = "prod" -> 1 + Len(e.atoms) * tot([j \in 1..Len(e.atoms) |-> e.atoms[j].e], Len(e.atoms))
         [] e.k = "compose" -> 1 + Len(e.g) * Len(e.g) * Cost(P, e.f) + 2 * tot(e.g, Len(e.g))
         [] OTHER -> 1
MaxCost == 300
(* accepts a node as an entry when it is defined and of moderate size             *)
Entry(gl, P, node, pm) ==
    LET arrs == ArgsOf(gl, pm) IN
    IF NumVars(arrs) > MaxVars THEN <<>>
    ELSE IF Cost(Append(P, node), Len(P) + 1) > MaxCost THEN <<>>
    ELSE LET v == Ev(Append(P, node), Len(P) + 1, VarArgs(arrs)) IN
         IF Len(v.a.v) > MaxCells \/ ~RBounded(v.a.v, Bound) THEN <<>>
         \* a single number that is exactly zero: the library's axis-free null tensor
         ELSE IF v.n = 0 /\ v.d = 0 /\ REq(v.a.v[1][1], 0) THEN <<>>
         ELSE <<[node |-> node, pm |-> pm, v |-> v]>>
Nodes(pool) == Tup([j \in 1..Len(pool) |-> pool[j].node])

(* functions that do arithmetic on their raw arguments                            *)
RECURSIVE Raw(_, _)
Raw(P, i) ==
    LET e == P[i] IN
    CASE e.k \in {"log", "arctan", "markovm", "markovv", "set"} -> TRUE
      [] e.k \in {"aff", "affine", "wrap", "collapse"} -> Raw(P, e.e)
      [] e.k = "compose" -> \E j \in 1..Len(e.g) : Raw(P, e.g[j])
      [] e.k \in {"sum", "prod"} -> \E a \in 1..Len(e.atoms) : Raw(P, e.atoms[a].e)
      [] OTHER -> FALSE

(* ---- primitives ------------------------------------------------------------- *)
RWeights == <<1, 2, "-0.5", -1, "0.25", "1.5">>
RSkew(st, n) == IF Chance(st, 70, 1, 2) THEN Tup([q \in 1..n |-> 1])
                ELSE Tup([q \in 1..n |-> RRnd(H(st, 70 + q), 500, 1100)])
RConds(st) ==
    IF Chance(st, 80, 1, 2) THEN DefaultConds
    ELSE Tup([q \in 1..(1 + R(st, 81, 3)) |->
            <<R(st, 82 + 4 * q, 5) - 2, R(st, 83 + 4 * q, 5) - 2, R(st, 84 + 4 * q, 5) - 2, R(st, 85 + 4 * q, 3) - 1>>])
GenPrim(st, gl, P) ==
    LET k == PickSeq(st, 1, <<"x", "x", "x", "scalar", "vector", "const", "quad", "linear", "exp", "exp", "log",
                              "logistic", "arctan", "poisson", "lnb", "nb", "markovm", "markovv", "colm",
                              "game", "tiebreak", "set">>)
        any == 1 + R(st, 2, 6)
        pos == PickSet(st, 3, Prob)
        vec == RArr(H(st, 4), IF Chance(st, 5, 1, 2) \/ Single(gl) THEN gl[2].sh ELSE <<2 + R(st, 6, IF Large THEN 7 ELSE 2)>>, -1500, 1500)
        two == PickSeq(st, 7, <<<<3, 5>>, <<5, 3>>, <<3, 3>>, <<5, 5>>>>)
        tw2 == IF gl[two[1]].sh = gl[two[2]].sh THEN two ELSE <<two[1], two[1]>>
        sz == 2 + R(st, 8, IF Large THEN 4 ELSE 2)
        psz == IF Chance(st, 40, 1, 12) THEN 10 ELSE sz + 1
        flat == PickSeq(st, 9, <<3, 5>>)
    IN CASE k = "x" \/ k = "exp" \/ k = "logistic" \/ k = "arctan" -> Entry(gl, P, [k |-> k], <<any>>)
         [] k = "scalar" -> Entry(gl, P, [k |-> k], <<1>>)
         [] k = "vector" -> Entry(gl, P, [k |-> k, c |-> vec], <<1>>)
         [] k = "const" -> Entry(gl, P, [k |-> k, c |-> vec], <<>>)
         [] k = "quad" -> Entry(gl, P, [k |-> k, u |-> PickSeq(st, 20, <<0, "0.5", -1>>), s |-> PickSeq(st, 21, <<1, 2, "0.5">>)],
                                IF Chance(st, 22, 1, 2) THEN <<any>> ELSE <<any, 1 + R(st, 23, 5)>>)
         [] k = "linear" ->
              LET lp == IF Chance(st, 22, 1, 2) THEN <<any>> ELSE <<any, 1 + R(st, 23, 5)>> IN
              Entry(gl, P, [k |-> k, ws |-> Tup([q \in 1..Len(lp) |->
                    IF Chance(st, 26 + q, 1, 2) THEN RArr(H(st, 28 + q), gl[lp[q]].sh, -1500, 1500)
                    ELSE Scl(PickSeq(st, 30 + q, <<1, 2, "-0.5">>))])], lp)
         [] k = "log" -> Entry(gl, P, [k |-> k], <<pos>>)
         [] k = "poisson" -> Entry(gl, P, [k |-> k, size |-> psz], <<pos>>)
         [] k = "lnb" \/ k = "nb" -> Entry(gl, P, [k |-> k, size |-> psz, r |-> PickSeq(st, 24, <<1, 2, "0.5", "2.5">>)], <<pos>>)
         [] k = "markovm" -> Entry(gl, P, [k |-> k, size |-> sz, steps |-> 2 + R(st, 25, 2), skew |-> RSkew(st, sz * sz)], tw2)
         [] k = "markovv" -> Entry(gl, P, [k |-> k, size |-> sz, steps |-> 2 + R(st, 25, 2), skew |-> RSkew(st, 2 * sz - 1)], tw2)
         [] k = "colm" -> Entry(gl, P, [k |-> k, conds |-> RConds(st)], <<6>>)
         [] k = "game" \/ k = "tiebreak" -> Entry(gl, P, [k |-> k], <<flat>>)
         [] k = "set" -> Entry(gl, P, [k |-> k], <<flat, IF flat = 3 /\ Chance(st, 26, 1, 2) THEN 2 ELSE flat>>)

(* ---- combinators ------------------------------------------------------------- *)
Recent(st, key, pool, w) == Len(pool) - R(st, key, IF Len(pool) < w THEN Len(pool) ELSE w)
GenAff(st, gl, pool) ==
    LET i == Recent(st, 1, pool, 5)
        f == PickSeq(st, 2, <<"add", "radd", "sub", "rsub", "mul", "rmul", "div", "neg", "affine">>)
        c == IF f \in {"mul", "rmul", "div", "affine"} THEN PickSeq(st, 3, <<2, "-0.5", -1, "0.25", 4, 1>>)
             ELSE PickSeq(st, 4, <<0, 1, "-0.75", 2, "0.5">>)
    IN Entry(gl, Nodes(pool),
             IF f = "affine" THEN [k |-> "affine", e |-> i, c |-> c, b |-> PickSeq(st, 5, <<0, 1, "-0.75">>)]
             ELSE [k |-> "aff", e |-> i, f |-> f, c |-> c], pool[i].pm)

(* outer argument lists: positions of each atom's arguments in a shared list     *)
IdxOf(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
RECURSIVE MergeArgs(_, _, _, _)
MergeArgs(st, lists, a, acc) ==        \* acc = [outer, maps]; maps hold 1-based positions
    IF a > Len(lists) THEN acc
    ELSE LET RECURSIVE one(_, _, _)
             one(j, outer, m) ==
                IF j > Len(lists[a]) THEN [outer |-> outer, m |-> m]
                ELSE LET g == lists[a][j]
                         have == \E q \in 1..Len(outer) : outer[q] = g
                     IN IF have /\ Chance(st, a * 20 + j, 4, 5)
                        THEN one(j + 1, outer, Append(m, IdxOf(outer, g)))
                        ELSE one(j + 1, Append(outer, g), Append(m, Len(outer) + 1))
             r == one(1, acc.outer, <<>>)
         IN MergeArgs(st, lists, a + 1, [outer |-> r.outer, maps |-> Append(acc.maps, r.m)])
(* the merged list in a random order, with an unused argument now and then       *)
OuterArgs(st, lists) ==
    LET m0 == MergeArgs(st, lists, 1, [outer |-> <<>>, maps |-> <<>>])
        ex == IF Chance(st, 200, 1, 4) THEN <<1 + R(st, 201, 5)>> ELSE <<>>
        o == m0.outer \o ex
        perm == RInj(H(st, 202), Len(o), Len(o))            \* old position -> new, 0-based
        o2 == Tup([q \in 1..Len(o) |-> o[CHOOSE j \in 1..Len(o) : perm[j] = q - 1]])
    IN [outer |-> o2,
        maps |-> Tup([a \in 1..Len(lists) |-> Tup([j \in 1..Len(m0.maps[a]) |-> perm[m0.maps[a][j]]])])]

(* atoms of a sum or product: entries is a sequence of pool indices               *)
GenAtoms(st, pool, es, weighted) ==
    LET oa == OuterArgs(H(st, 1), Tup([a \in 1..Len(es) |-> pool[es[a]].pm]))
        ns == {pool[es[a]].v.n : a \in 1..Len(es)}   ds == {pool[es[a]].v.d : a \in 1..Len(es)}
        nmax == CHOOSE x \in ns : \A y \in ns : y <= x
        dmax == CHOOSE x \in ds : \A y \in ds : y <= x
        nf == IF nmax + R(st, 2, 2) > 3 THEN nmax ELSE nmax + R(st, 2, 2)
        nd == IF dmax > 0 /\ dmax < 2 /\ Chance(st, 3, 1, 4) THEN dmax + 1 ELSE dmax
    IN [nf |-> nf, nd |-> nd, outer |-> oa.outer,
        atoms |-> Tup([a \in 1..Len(es) |->
            [e |-> es[a], pm |-> oa.maps[a],
             fm |-> IF Chance(st, 10 + a, 1, 3) THEN Iota(0, pool[es[a]].v.n - 1)
                    ELSE Tup(RInj(H(st, 20 + a), pool[es[a]].v.n, nf)),
             dm |-> Tup(RInj(H(st, 30 + a), pool[es[a]].v.d, nd)),
             w |-> IF weighted THEN PickSeq(st, 40 + a, RWeights) ELSE 1]])]
(* the atoms' values can be combined                                              *)
AtomsFit(pool, g) ==
    LET shp(at) == LET t == pool[at.e].v IN
                   WrapV(Val(t.n, t.d, t.a), at.fm, g.nf, {}, at.dm, g.nd).a.sh
    IN \A a, b \in 1..Len(g.atoms) : BOk(shp(g.atoms[a]), shp(g.atoms[b]))
AtomCells(pool, g) == Size(Tup([j \in 1..(g.nf + g.nd) |->
        LET s == {WrapV(pool[g.atoms[a].e].v, g.atoms[a].fm, g.nf, {}, g.atoms[a].dm, g.nd).a.sh[j] : a \in 1..Len(g.atoms)}
        IN CHOOSE x \in s : \A y \in s : y <= x]))
GenSum(st, gl, pool, kind) ==
    LET c == 1 + R(st, 1, 3)
        es == Tup([a \in 1..c |-> Recent(st, 5 + a, pool, IF a = 1 THEN 3 ELSE 20)])
        g == GenAtoms(H(st, 2), pool, es, kind = "sum")
    IN IF NumVars(ArgsOf(gl, g.outer)) > MaxVars THEN <<>>
       ELSE IF ~AtomsFit(pool, g) THEN <<>>
       ELSE IF AtomCells(pool, g) > MaxCells THEN <<>>
       ELSE Entry(gl, Nodes(pool), [k |-> kind, nf |-> g.nf, nd |-> g.nd, atoms |-> g.atoms], g.outer)
GenWrap(st, gl, pool) ==
    LET i == Recent(st, 1, pool, 5)  v == pool[i].v
        g == GenAtoms(H(st, 2), pool, <<i>>, FALSE)
        at == g.atoms[1]
        dflt == Chance(st, 3, 1, 2)                 \* default mapping of the value axes
        flip == {f \in {at.fm[q] : q \in 1..Len(at.fm)} : Chance(st, 50 + f, 1, 3)}
    IN IF NumVars(ArgsOf(gl, g.outer)) > MaxVars THEN <<>>
       ELSE Entry(gl, Nodes(pool), [k |-> "wrap", e |-> i, pm |-> at.pm, fm |-> at.fm, nf |-> g.nf, flip |-> flip,
                    dm |-> IF dflt THEN Iota(0, v.d - 1) ELSE at.dm, nd |-> IF dflt THEN v.d ELSE g.nd,
                    dflt |-> dflt], g.outer)
GenCollapse(st, gl, pool) ==
    LET i == Recent(st, 1, pool, 6)  v == pool[i].v
        all == Chance(st, 2, 1, 3)
        F == {f \in 0..(v.n - 1) : Chance(st, 3 + f, 1, 2)}
    IN Entry(gl, Nodes(pool), [k |-> "collapse", e |-> i, all |-> all, F |-> F, dd |-> Chance(st, 10, 1, 2)], pool[i].pm)

Elementwise == {"exp", "log"}
Plain == {"x", "logistic", "arctan", "poisson", "lnb", "nb"}
(* domain of a composition: no axis of size one in the inner values, value axes   *)
(* only into functions that keep or consume them, outer arguments of the shapes   *)
(* that the outer function was built for                                          *)
CanCompose(gl, f, gs) ==
    /\ Len(f.pm) = Len(gs) /\ gs # <<>>
    /\ \A j \in 1..Len(gs) : /\ gs[j].pm = gs[1].pm
                             /\ \A q \in 1..Len(gs[j].v.a.sh) : gs[j].v.a.sh[q] > 1 \/ Single(gl)
    /\ LET v == gs[1].v  k == f.node.k IN
       CASE k \in Elementwise -> TRUE
         [] k \in Plain -> v.d = 0
         [] k \in {"game", "tiebreak"} -> v.d = 0 /\ v.n <= 1
         [] k = "set" -> v.d = 0 /\ v.n <= 1 /\ gs[2].v.a.sh = v.a.sh /\ gs[2].v.d = 0
         [] k \in {"markovm", "markovv"} -> v.d = 0 /\ gs[2].v.d = 0 /\ v.a.sh = gs[2].v.a.sh
         [] k = "colm" -> Len(v.a.sh) \in 2..4
         [] OTHER -> \A j \in 1..Len(gs) : gs[j].v.d = 0 /\ gs[j].v.a.sh = gl[f.pm[j]].sh
GenCompose(st, gl, pool) ==
    LET i == IF Chance(st, 1, 2, 3) THEN 1 + R(st, 2, Len(pool)) ELSE Recent(st, 2, pool, 5)
        f == pool[i]
        g1 == Recent(st, 3, pool, 6)
        same == {j \in 1..Len(pool) : pool[j].pm = pool[g1].pm}
        gs == Tup([j \in 1..Len(f.pm) |-> IF j = 1 THEN g1 ELSE PickSet(st, 4 + j, same)])
    IN IF ~CanCompose(gl, f, Tup([j \in 1..Len(gs) |-> pool[gs[j]]])) THEN <<>>
       ELSE Entry(gl, Nodes(pool), [k |-> "compose", f |-> i, g |-> gs], pool[g1].pm)

(* composition of a function of several arguments with inner functions of        *)
(* different parameters: the inner functions are first brought to one common      *)
(* parameter list.  Yields the wrapped inner functions and the composition.       *)
GenCompose2(st, gl, pool) ==
    LET outs == {j \in 1..Len(pool) : Len(pool[j].pm) >= 2}
        i == PickSet(st, 1, outs)
        f == pool[i]
        fits(j, g) == pool[g].v.d = 0 /\ pool[g].v.a.sh = gl[f.pm[j]].sh
                      /\ \A q \in 1..Len(pool[g].v.a.sh) : pool[g].v.a.sh[q] > 1
        cand(j) == {g \in 1..Len(pool) : fits(j, g)}
        \* a plain function of one parameter of the right shape
        fresh(j) == Entry(gl, <<>>, [k |-> PickSeq(st, 10 + j, <<"x", "exp", "logistic">>)],
                          <<PickSet(st, 20 + j, {q \in 1..6 : gl[q].sh = gl[f.pm[j]].sh})>>)
        add(j) == IF cand(j) = {} \/ Chance(st, 30 + j, 1, 5) THEN fresh(j) ELSE <<>>
        adds == Tup([j \in 1..Len(f.pm) |-> add(j)])
        RECURSIVE Ext(_)
        Ext(j) == IF j = 0 THEN pool ELSE Ext(j - 1) \o adds[j]
        pool1 == Ext(Len(f.pm))
        idx == Tup([j \in 1..Len(f.pm) |->
                    IF adds[j] # <<>> THEN Len(Ext(j))
                    ELSE IF cand(j) = {} THEN 0 ELSE PickSet(st, 40 + j, cand(j))])
    IN IF outs = {} THEN <<>>
       ELSE IF \E j \in 1..Len(idx) : idx[j] = 0 THEN <<>>
       ELSE LET oa == OuterArgs(H(st, 2), Tup([j \in 1..Len(idx) |-> pool1[idx[j]].pm])) IN
       IF NumVars(ArgsOf(gl, oa.outer)) > MaxVars THEN <<>>
       ELSE LET wrap(j) == LET v == pool1[idx[j]].v IN
                    Entry(gl, Nodes(pool1), [k |-> "wrap", e |-> idx[j], pm |-> oa.maps[j], fm |-> Iota(0, v.n - 1),
                          nf |-> v.n, flip |-> {}, dm |-> <<>>, nd |-> 0, dflt |-> TRUE], oa.outer)
                ws == Tup([j \in 1..Len(idx) |-> wrap(j)])
            IN IF \E j \in 1..Len(ws) : ws[j] = <<>> THEN <<>>
               ELSE LET pool2 == pool1 \o Tup([j \in 1..Len(ws) |-> ws[j][1]])
                        gs == Tup([j \in 1..Len(ws) |-> Len(pool1) + j])
                    IN IF ~CanCompose(gl, f, Tup([j \in 1..Len(gs) |-> pool2[gs[j]]])) THEN <<>>
                       ELSE LET c == Entry(gl, Nodes(pool2), [k |-> "compose", f |-> i, g |-> gs], oa.outer) IN
                            IF c = <<>> THEN <<>>
                            ELSE Sub(pool2, Len(pool) + 1, Len(pool2)) \o c

Gen(op, st, gl, pool) ==
    CASE op = "prim" -> GenPrim(st, gl, Nodes(pool))
      [] op = "aff" -> GenAff(st, gl, pool)
      [] op = "sum" -> GenSum(st, gl, pool, "sum")
      [] op = "prod" -> GenSum(st, gl, pool, "prod")
      [] op = "wrap" -> GenWrap(st, gl, pool)
      [] op = "collapse" -> GenCollapse(st, gl, pool)
      [] op = "compose" -> GenCompose(st, gl, pool)
      [] op = "compose2" -> GenCompose2(st, gl, pool)
=============================================================================

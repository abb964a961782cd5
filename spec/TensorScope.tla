----------------------------- MODULE TensorScope -----------------------------
(***************************************************************************)
(* The tensor algebra over a small scope, completely: where TensorSession   *)
(* samples histories, this module enumerates every stored layout within a   *)
(* frame of axis sizes (each block present or not, every mapping of         *)
(* derivative axes onto features, every choice of axes stored broadcast)    *)
(* and, for each, every partner layout of the frame under the binary        *)
(* operations, every argument of the reshaping operations, or every partner *)
(* of a contraction.  One behaviour per left operand.                       *)
(***************************************************************************)
EXTENDS TensorSession, SequencesExt

(* MixName: "bin", "tri", "un" or "dot";  Depth: the level of the scope              *)
Frame(n, x, y, d) == [n |-> n, x |-> x, y |-> y, d |-> d]
Frames == CASE MixName = "bin" /\ Depth = 1 ->
                  {Frame(<<2>>, <<2>>, <<2>>, <<2>>), Frame(<<2, 2>>, <<2, 2>>, <<>>, <<>>), Frame(<<2, 3>>, <<3>>, <<2>>, <<>>)}
            [] MixName = "bin" /\ Depth = 2 ->
                  {Frame(<<2, 2>>, <<2>>, <<2>>, <<2>>), Frame(<<2, 2>>, <<2, 2>>, <<2>>, <<>>), Frame(<<2, 3>>, <<3>>, <<2>>, <<2>>),
                   Frame(<<2, 3>>, <<2, 3>>, <<>>, <<>>)}
            [] MixName = "tri" /\ Depth = 1 -> {Frame(<<2>>, <<2>>, <<>>, <<>>), Frame(<<2>>, <<2>>, <<2>>, <<>>)}
            [] MixName = "tri" /\ Depth = 2 -> {Frame(<<2>>, <<2>>, <<2>>, <<>>), Frame(<<2>>, <<2>>, <<>>, <<2>>), Frame(<<2, 2>>, <<2>>, <<>>, <<>>)}
            [] MixName = "un" /\ Depth = 1 ->
                  {Frame(<<2, 2>>, <<2, 2>>, <<2>>, <<>>), Frame(<<2, 3>>, <<3>>, <<2>>, <<2>>), Frame(<<3, 2>>, <<2>>, <<>>, <<2, 3>>)}
            [] MixName = "un" /\ Depth = 2 ->
                  {Frame(<<2, 2>>, <<2, 2>>, <<2, 2>>, <<>>), Frame(<<2, 3>>, <<3, 2>>, <<2>>, <<2>>), Frame(<<2, 2, 3>>, <<3, 2>>, <<2>>, <<>>),
                   Frame(<<3, 2>>, <<2>>, <<3>>, <<2, 3>>)}
            [] MixName = "dot" /\ Depth = 1 ->
                  {Frame(<<2>>, <<2>>, <<2>>, <<2>>), Frame(<<2, 2>>, <<2, 2>>, <<>>, <<>>), Frame(<<3, 2>>, <<2>>, <<3, 2>>, <<>>)}
            [] MixName = "dot" /\ Depth = 2 ->
                  {Frame(<<2>>, <<2>>, <<2>>, <<2>>), Frame(<<2, 2>>, <<2, 2>>, <<2>>, <<>>), Frame(<<2, 3>>, <<3, 2>>, <<2>>, <<>>),
                   Frame(<<3, 2>>, <<2>>, <<3, 2>>, <<2>>)}

Seqs(S, n) == [1..n -> S]                        \* all sequences of length n
Maps(K, N) == {m \in Seqs(-1..(Len(N) - 1), Len(K)) :
                 /\ \A j \in 1..Len(K) : m[j] >= 0 => K[j] = N[m[j] + 1]
                 /\ \A i, j \in 1..Len(K) : (i # j /\ m[i] >= 0) => m[i] # m[j]}
Used(m) == {m[j] : j \in 1..Len(m)} \ {-1}
(* stored sizes: a free axis at its size or broadcast                          *)
Stored(K, fixed) == {q \in Seqs({1, 2, 3}, Len(K)) :
                       \A j \in 1..Len(K) : q[j] = K[j] \/ (q[j] = 1 /\ j \notin fixed)}
Blocks(K) == {K, <<>>}
Lays(f, full) ==
    UNION {UNION {UNION {UNION {UNION {
        {[ns |-> nb, xs |-> xb, ys |-> yb, ds |-> db, xm |-> xm, ym |-> ym] :
            nb \in Stored(ns, IF full THEN 1..Len(ns) ELSE {q + 1 : q \in Used(xm) \union Used(ym)}),
            xb \in Stored(xs, {j \in 1..Len(xs) : xm[j] >= 0}),
            yb \in Stored(ys, {j \in 1..Len(ys) : ym[j] >= 0}),
            db \in UNION {Stored(ds, {}) : ds \in Blocks(f.d)}}
          : ym \in Maps(ys, ns)} : xm \in Maps(xs, ns)} : ys \in Blocks(f.y)} : xs \in Blocks(f.x)} : ns \in IF full THEN {f.n} ELSE Blocks(f.n)}
(* a leaf of a layout: values without zero                                     *)
Leafed(st, p) ==
    LET l0 == [xs |-> Tup(p.xs), ys |-> Tup(p.ys), ns |-> Tup(p.ns), ds |-> Tup(p.ds), xm |-> Tup(p.xm), ym |-> Tup(p.ym),
               fill |-> "nz", v |-> <<>>]
    IN Refill(st, l0)
(* the left operands; NSess thins them out evenly when there are more            *)
AllLefts == SetToSeq(UNION {{[f |-> f, p |-> p] : p \in Lays(f, FALSE)} : f \in Frames})
Step == IF Len(AllLefts) <= NSess THEN 1 ELSE Len(AllLefts) \div NSess
Lefts == [j \in 1..(Len(AllLefts) \div Step) |-> AllLefts[1 + ((j - 1) * Step) + R(Seed, j, Step)]]

(* ---- every partner under the binary operations ------------------------------- *)
BinLog(st, f, p) ==
    LET l == Leafed(H(st, 1), p)
        t == Denote(l)
        ps == SetToSeq(Lays(f, FALSE))
        np == Len(ps)
        ls == Tup([j \in 1..np |-> Leafed(H(st, 10 + j), ps[j])])
        us == Tup([j \in 1..np |-> Denote(ls[j])])
        ops(j) == <<"add", "mul">> \o (IF (j + st) % 4 = 0 THEN <<"sub">> ELSE <<>>)
                  \o (IF Mapped(ls[j]) THEN <<>> ELSE <<"div">>)
        ev(o, j) == [op |-> "bin", f |-> o, a |-> 1, b |-> j + 1, zero |-> FALSE, res |-> ArithT(o, t, us[j])]
    IN <<LeafEv(l, t)>> \o Tup([j \in 1..np |-> LeafEv(ls[j], us[j])])
       \o FlattenSeq(Tup([j \in 1..np |-> Tup([q \in 1..Len(ops(j)) |-> ev(ops(j)[q], j)])]))

(* ---- every pair of partners: two operations in a row, and the sums and the        *)
(* contraction of a sum that may stay unmerged                                        *)
TriLog(st, f, p) ==
    LET l == Leafed(H(st, 1), p)
        t == Denote(l)
        ps == SetToSeq(Lays(f, FALSE))
        np == Len(ps)
        ls == Tup([j \in 1..np |-> Leafed(H(st, 10 + j), ps[j])])
        us == Tup([j \in 1..np |-> Denote(ls[j])])
        g == Tup([j \in 1..np |-> ArithT("add", t, us[j])])
        h == Tup([j \in 1..np |-> ArithT("mul", t, us[j])])
        bin(o, a, b, v, w) == [op |-> "bin", f |-> o, a |-> a, b |-> b, zero |-> FALSE, res |-> ArithT(o, v, w)]
        (* registers: the operand, its partners, the sums, the products, then the rest *)
        G(j) == 1 + np + j
        P(j) == 1 + 2 * np + j
        sums(j) == [q \in 1..2 |-> [op |-> "sum", a |-> G(j), form |-> "list", F |-> IF q = 1 THEN ToSeq(0..(g[j].n - 1)) ELSE <<>>, dd |-> q = 1,
                                    res |-> SumT(g[j], IF q = 1 THEN 0..(g[j].n - 1) ELSE {}, q = 1)]]
        (* a contraction of the sum with every partner whose features are stored in full *)
        dots(j, i) == LET c == us[i] IN
            IF g[j].x = 0 \/ c.n = 0 \/ c.n # g[j].x \/ NSh(c) # f.x \/ ls[i].ns # f.x \/ c.y > 0 \/ (c.d > 0 /\ g[j].d > 0 /\ c.d # g[j].d) THEN <<>>
            ELSE <<[op |-> "dotl", a |-> G(j), b |-> i + 1, res |-> DotL(g[j], c)]>>
        two(j, i) ==
            <<bin("mul", G(j), i + 1, g[j], us[i]), bin("add", P(j), i + 1, h[j], us[i])>>
            \o (CASE (i + j) % 4 = 0 -> <<bin("add", G(j), i + 1, g[j], us[i])>> [] (i + j) % 4 = 1 -> <<bin("sub", i + 1, G(j), us[i], g[j])>>
                  [] (i + j) % 4 = 2 -> <<bin("mul", i + 1, P(j), us[i], h[j])>> [] OTHER -> <<bin("mul", G(j), G(i), g[j], g[i])>>)
            \o (IF Mapped(ls[i]) THEN <<>> ELSE <<bin("div", G(j), i + 1, g[j], us[i])>>)
            \o dots(j, i)
    IN <<LeafEv(l, t)>> \o Tup([j \in 1..np |-> LeafEv(ls[j], us[j])])
       \o Tup([j \in 1..np |-> bin("add", 1, j + 1, t, us[j])]) \o Tup([j \in 1..np |-> bin("mul", 1, j + 1, t, us[j])])
       \o FlattenSeq(Tup([j \in 1..np |-> sums(j)])) \o FlattenSeq(Tup([j \in 1..np |-> FlattenSeq(Tup([i \in 1..np |-> two(j, i)]))]))

(* ---- every argument of the reshaping operations -------------------------------- *)
Inj(n, m) == {w \in Seqs(0..(m - 1), n) : \A i, j \in 1..n : i # j => w[i] # w[j]}
UnLog(st, f, p) ==
    LET l == Leafed(H(st, 1), p)
        t == Denote(l)
        free == ~Mapped(l)
        two == Leafed(H(st, 2), [p EXCEPT !.xm = [j \in DOMAIN p.xm |-> -1], !.ym = [j \in DOMAIN p.ym |-> -1]])
        u == Denote(two)
        g == ArithT("add", t, u)                          \* the same kept as a sum of two terms
        on(i, v) ==
            LET sums == SetToSeq({[F |-> F, dd |-> dd] : F \in SUBSET (0..(v.n - 1)), dd \in BOOLEAN})
                flips == SetToSeq({[F |-> F, dim |-> dim] : F \in SUBSET (0..(v.n - 1)), dim \in {FALSE}}
                                  \union {[F |-> F, dim |-> TRUE] : F \in SUBSET (0..(v.d - 1))})
                exps == SetToSeq(UNION {{[w |-> w, m |-> m, dim |-> FALSE] : w \in Inj(v.n, m)} : m \in Mx(v.n, 1)..Mx(v.n + 1, 1)}
                                 \union UNION {{[w |-> w, m |-> m, dim |-> TRUE] : w \in Inj(v.d, m)} : m \in Mx(v.d, 1)..Mx(v.d + 1, 1)})
                sev(s0) == [op |-> "sum", a |-> i, form |-> "list", F |-> ToSeq(s0.F), dd |-> s0.dd, res |-> SumT(v, s0.F, s0.dd)]
                fev(s0) == [op |-> "flip", a |-> i, F |-> ToSeq(s0.F), dim |-> s0.dim,
                            refuse |-> ~s0.dim /\ ~free, res |-> IF s0.dim THEN FlipD(v, s0.F) ELSE FlipN(v, s0.F)]
                eev(s0) == [op |-> "expand", a |-> i, w |-> Tup(s0.w), m |-> s0.m, dim |-> s0.dim,
                            res |-> IF s0.dim THEN ExpandD(v, Tup(s0.w), s0.m) ELSE ExpandN(v, Tup(s0.w), s0.m)]
            IN Tup([j \in 1..Len(sums) |-> sev(sums[j])])
               \o (IF Rk(v) = 0 THEN <<>> ELSE Tup([j \in 1..Len(flips) |-> fev(flips[j])]) \o Tup([j \in 1..Len(exps) |-> eev(exps[j])]))
               \o <<[op |-> "trans", a |-> i, res |-> TransT(v)], [op |-> "drop", a |-> i, res |-> DropD(v)], [op |-> "neg", a |-> i, res |-> NegT(v)]>>
    IN <<LeafEv(l, t), LeafEv(two, u), [op |-> "bin", f |-> "add", a |-> 1, b |-> 2, zero |-> FALSE, res |-> g]>>
       \o on(1, t) \o on(3, g)

(* ---- every partner of a contraction --------------------------------------------- *)
(* the second operand stores its features at the size of the contracted axes;       *)
(* value axes agree or one operand has none                                          *)
DotLog(st, f, p) ==
    LET l == Leafed(H(st, 1), p)
        t == Denote(l)
        over(K, right) ==
            LET ps == SetToSeq({q \in Lays([f EXCEPT !.n = Tup(K), !.y = IF right THEN @ ELSE <<>>], TRUE) : right => q.ys # <<>> \/ q.xs # <<>>})
            IN Tup([j \in 1..Len(ps) |-> Leafed(H(st, 10 + j), ps[j])])
        KX == Tup([j \in 1..t.x |-> f.x[j]])
        KY == Tup([j \in 1..t.y |-> f.y[j]])
        left == IF t.x > 0 THEN over(KX, FALSE) ELSE <<>>
        leftY == IF t.y > 0 /\ t.y # t.x THEN over(KY, FALSE) ELSE <<>>
        right == IF t.x > 0 /\ t.y = 0 THEN over(KX, TRUE) ELSE <<>>
        us == left \o leftY \o right
        nl == Len(left) + Len(leftY)
        ds == Tup([j \in 1..Len(us) |-> Denote(us[j])])
        kind(j) == IF j <= nl THEN "dotl" ELSE "dotr"
        res(j) == IF j <= nl THEN IF j <= Len(left) THEN DotL(t, ds[j]) ELSE DotL(TransT(t), ds[j]) ELSE DotR(t, ds[j])
        auto(j) == j <= nl \/ (ds[j].x > 0 /\ ds[j].y > 0)
        evs(j) == <<[op |-> kind(j), a |-> 1, b |-> j + 1, res |-> res(j)]>>
                  \o (IF auto(j) THEN <<[op |-> "dot", a |-> 1, b |-> j + 1, res |-> DotAuto(t, ds[j])]>> ELSE <<>>)
    IN <<LeafEv(l, t)>> \o Tup([j \in 1..Len(us) |-> LeafEv(us[j], ds[j])])
       \o FlattenSeq(Tup([j \in 1..Len(us) |-> evs(j)]))

ScopeInit == /\ id \in 1..Len(Lefts)
             /\ s = H(Seed, id) /\ k = 0 /\ pool = <<>> /\ log = <<>> /\ phase = "run"
Enumerate ==
    /\ phase = "run"
    /\ LET e == Lefts[id]
           lg == CASE MixName = "bin" -> BinLog(s, e.f, e.p) [] MixName = "tri" -> TriLog(s, e.f, e.p)
                  [] MixName = "un" -> UnLog(s, e.f, e.p) [] MixName = "dot" -> DotLog(s, e.f, e.p)
       IN /\ Emit(OutFile, [id |-> id, log |-> lg])
          /\ k' = Len(lg)
          (* the results are well formed: of the last operations, to keep states small *)
          /\ pool' = Tup([j \in 1..Mx(0, IF Len(lg) > 6 THEN 6 ELSE Len(lg)) |-> Reg(lg[Len(lg) + 1 - j].res)])
    /\ phase' = "done" /\ UNCHANGED <<id, s, log>>
ScopeSpec == ScopeInit /\ [][Enumerate]_vars
=============================================================================

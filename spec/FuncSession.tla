---------------------------- MODULE FuncSession ----------------------------
(***************************************************************************)
(* A session that builds model functions step by step, from primitives and *)
(* combinators over earlier functions, and publishes every function with    *)
(* its exact value, gradient and Hessian at the session's parameters.       *)
(***************************************************************************)
EXTENDS FuncGen

CONSTANTS NSess, Depth, Seed, OutFile

VARIABLES id, s, k, gl, pool, phase
vars == <<id, s, k, gl, pool, phase>>

Mix == <<"prim", "prim", "aff", "aff", "sum", "sum", "sum", "prod", "prod", "wrap", "collapse", "compose", "compose", "compose2", "compose2", "compose2">>

Init == /\ id \in 1..NSess
        /\ s = H(Seed, id) /\ k = 0 /\ gl = MkGlobals(H(H(Seed, id), 7))
        /\ pool = <<>> /\ phase = "run"
Act(op) ==
    /\ phase = "run" /\ k < Depth
    /\ op = IF k < 4 THEN "prim" ELSE IF pool = <<>> THEN "prim" ELSE PickSeq(s, 1, Mix)
    /\ LET e1 == Gen(op, H(s, 2), gl, pool)
           e == IF e1 = <<>> THEN Gen(op, H(s, 4), gl, pool) ELSE e1        \* one retry
       IN pool' = pool \o e
    /\ s' = H(s, 3) /\ k' = k + 1 /\ UNCHANGED <<id, gl, phase>>
Prim == Act("prim")
Aff == Act("aff")
SumF == Act("sum")
ProdF == Act("prod")
WrapF == Act("wrap")
CollapseF == Act("collapse")
ComposeF == Act("compose")
Compose2F == Act("compose2")
Finish == /\ phase = "run" /\ k = Depth
          /\ phase' = "done"
          /\ Emit(OutFile, [id |-> id, gl |-> gl,
                   fs |-> Tup([j \in 1..Len(pool) |->
                      [node |-> pool[j].node, pm |-> pool[j].pm, n |-> pool[j].v.n, d |-> pool[j].v.d,
                       sh |-> pool[j].v.a.sh, jets |-> RRoundAll(pool[j].v.a.v, 17)]])])
          /\ UNCHANGED <<id, s, k, gl, pool>>
Next == Prim \/ Aff \/ SumF \/ ProdF \/ WrapF \/ CollapseF \/ ComposeF \/ Compose2F \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- laws of the semantics, checked on every function built ----------------- *)
JNear(a, b) == LET p == MaxP(a, b) IN \A q \in 1..JLen(p) :
        RNear(Get(a, q), Get(b, q), "0.000000000000000000001")
VNear(u, v) == u.n = v.n /\ u.d = v.d /\ u.a.sh = v.a.sh
               /\ \A q \in 1..Len(u.a.v) : JNear(u.a.v[q], v.a.v[q])
Last == pool[Len(pool)]
WellFormed == \A j \in 1..Len(pool) : WF(pool[j].v)
(* a value does not depend on how it is differentiated; probabilities are         *)
(* conserved by the walks and the scoring automata                                *)
ConstAgree == pool # <<>> =>
    LET c == Ev(Nodes(pool), Len(pool), ConstArgs(ArgsOf(gl, Last.pm))) IN
    \A q \in 1..Len(c.a.v) : RNear(c.a.v[q][1], Last.v.a.v[q][1], "0.000000000000000000001")
Conserved == (pool # <<>> /\ Last.node.k \in {"markovm", "markovv"}) =>
    LET t == SumJ(Last.v, {}, TRUE) IN \A q \in 1..Len(t.a.v) : JNear(t.a.v[q], JC(1))
=============================================================================

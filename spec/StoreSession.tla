---------------------------- MODULE StoreSession ---------------------------
(***************************************************************************)
(* A client session over a growing store of shared objects: parameters at   *)
(* two points, functions built from earlier functions, and the results of   *)
(* calls.  Building, calling and poking only ever add objects; the content  *)
(* of every object ever created stays what it was.                          *)
(***************************************************************************)
EXTENDS FuncGen

CONSTANTS NSess, Depth, Seed, OutFile

VARIABLES id, s, k, gl, pool, store, log, phase
vars == <<id, s, k, gl, pool, store, log, phase>>

Mix == <<"prim", "aff", "sum", "prod", "wrap", "collapse", "compose", "compose2",
         "call", "call", "call", "call", "call", "call", "poke", "poke">>

(* the same shapes, other values                                                *)
Other(st, g) == Tup([j \in 1..Len(g) |->
    CASE j \in {1, 2} -> RArr(H(st, 10 + j), g[j].sh, -1200, 1200)
      [] j = 4 -> RArr(H(st, 10 + j), g[j].sh, -900, 1100)
      [] OTHER -> RArr(H(st, 10 + j), g[j].sh, 120, 880)])

(* objects: a parameter (an array or a Param with fixed entries) at a point,      *)
(* or the result of a call                                                       *)
ParamObj(st, j, pt, a) ==
    [kind |-> IF Chance(st, 1, 1, 2) THEN "param" ELSE "array", of |-> j, pt |-> pt, val |-> a.v,
     mask |-> Tup([q \in 1..Len(a.v) |-> Chance(st, 10 + q, 1, 4)])]
Init == /\ id \in 1..NSess
        /\ s = H(Seed, id) /\ k = 0
        /\ gl = MkGlobals(H(H(Seed, id), 7))
        /\ pool = <<>> /\ log = <<>> /\ phase = "run"
        /\ store = LET g2 == Other(H(H(Seed, id), 8), gl) IN
             Tup([j \in 1..(2 * Len(gl)) |->
                IF j <= Len(gl) THEN ParamObj(H(H(Seed, id), 20 + j), j, 1, gl[j])
                ELSE ParamObj(H(H(Seed, id), 20 + j), j - Len(gl), 2, g2[j - Len(gl)])])

Build(op, st) ==
    LET e1 == Gen(op, st, gl, pool)
        e == IF e1 = <<>> THEN Gen(op, H(st, 4), gl, pool) ELSE e1
    IN [fs |-> e, objs |-> <<>>,
        evs |-> Tup([j \in 1..Len(e) |-> [op |-> "build", f |-> Len(pool) + j]])]
(* calls: any function ever built, at either point, by any of the entry points      *)
Call(st) ==
    LET f == 1 + (IF Chance(st, 1, 1, 2) THEN R(st, 2, Len(pool)) ELSE Len(pool) - 1 - R(st, 2, IF Len(pool) < 3 THEN Len(pool) ELSE 3))
        na == Len(pool[f].pm)
        what == PickSeq(st, 3, IF na = 0 THEN <<"call", "eval">>
                               ELSE <<"call", "grad", "gradi", "hess", "hessij", "eval", "eval">>)
        i == IF na = 0 THEN 0 ELSE R(st, 4, na)
        pt == IF Chance(st, 6, 1, 3) THEN 2 ELSE 1
    IN [fs |-> <<>>,
        objs |-> <<[kind |-> "result", of |-> f, pt |-> pt, val |-> IF pt = 1 THEN pool[f].v.a.v ELSE <<>>, mask |-> <<>>]>>,
        evs |-> <<[op |-> "call", f |-> f, what |-> what, i |-> i, j |-> R(st, 5, i + 1), pt |-> pt,
                   as |-> PickSeq(st, 7, <<"tuple", "list">>), obj |-> Len(store) + 1]>>]
Poke(st) ==
    LET o == 1 + R(st, 1, Len(store)) IN
    [fs |-> <<>>, objs |-> <<>>,
     evs |-> <<[op |-> "poke", obj |-> o,
                how |-> PickSeq(st, 2, <<"setattr", "delattr", "write", "iadd", "newattr", "item", "shown">>),
                attr |-> R(st, 3, 8)]>>]
Do(op, st) == IF op = "call" THEN Call(st) ELSE IF op = "poke" THEN Poke(st) ELSE Build(op, st)

Act(op) ==
    /\ phase = "run" /\ k < Depth
    /\ op = IF k < 3 \/ pool = <<>> THEN "prim" ELSE PickSeq(s, 1, Mix)
    /\ LET e == Do(op, H(s, 2)) IN
       /\ pool' = pool \o e.fs
       /\ store' = store \o e.objs
       /\ log' = log \o e.evs
    /\ s' = H(s, 3) /\ k' = k + 1 /\ UNCHANGED <<id, gl, phase>>
MakePrim == Act("prim")
MakeAff == Act("aff")
MakeSum == Act("sum")
MakeProd == Act("prod")
MakeWrap == Act("wrap")
MakeCollapse == Act("collapse")
MakeCompose == Act("compose")
MakeCompose2 == Act("compose2")
CallF == Act("call")
PokeO == Act("poke")
Finish == /\ phase = "run" /\ k = Depth
          /\ phase' = "done"
          /\ Emit(OutFile, [id |-> id, gl |-> gl, log |-> log,
                   params |-> Tup([j \in 1..(2 * Len(gl)) |->
                       [kind |-> store[j].kind, v |-> store[j].val, mask |-> store[j].mask,
                        sh |-> gl[store[j].of].sh, of |-> store[j].of, pt |-> store[j].pt]]),
                   fs |-> Tup([j \in 1..Len(pool) |->
                      [node |-> pool[j].node, pm |-> pool[j].pm, n |-> pool[j].v.n, d |-> pool[j].v.d,
                       sh |-> pool[j].v.a.sh, jets |-> RRoundAll(pool[j].v.a.v, 17)]])])
          /\ UNCHANGED <<id, s, k, gl, pool, store, log>>
Next == MakePrim \/ MakeAff \/ MakeSum \/ MakeProd \/ MakeWrap \/ MakeCollapse \/ MakeCompose \/ MakeCompose2
        \/ CallF \/ PokeO \/ Finish
Spec == Init /\ [][Next]_vars

(* objects never change once created, and no function changes the value of another    *)
Immutable == [][/\ Len(store') >= Len(store) /\ Len(pool') >= Len(pool)
                /\ \A j \in 1..Len(store) : store'[j] = store[j]
                /\ \A j \in 1..Len(pool) : pool'[j] = pool[j]]_vars
(* results of a function at the first point are its value there, whenever it is called  *)
Stable == \A j \in 1..Len(store) : (store[j].kind = "result" /\ store[j].pt = 1) =>
             store[j].val = pool[store[j].of].v.a.v
=============================================================================

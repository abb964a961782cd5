------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* Requests to build or evaluate the parts of a model, with arguments inside *)
(* and outside of the domain of each part.  Every part is a predicate        *)
(* (Legal) on its arguments; a request is granted exactly when it holds.     *)
(* A model under construction is a sequence of parameters; a refused request  *)
(* leaves it as it was.  All requests are enumerated.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Arr

CONSTANTS MaxLen, OutFile

VARIABLES hist, model, phase
vars == <<hist, model, phase>>

(* ---- parts asked once ----------------------------------------------------- *)
Nums == <<-5, -2, "-1.5", "-1.001", -1, "-0.999", "-0.5", "-0.001", 0, "0.001", "0.5", "0.999", 1, "1.001", "1.5", 2, 5>>
Copulas == {"Gaussian", "Clayton", "Gumbel", "Frank", "AkiMikhailHaq"}
CopulaOk(f, r) ==
    CASE f \in {"Gaussian", "AkiMikhailHaq"} -> RLe(-1, r) /\ RLe(r, 1)
      [] f = "Clayton" -> RLt(0, r)
      [] f = "Gumbel" -> RLe(1, r)
      [] f = "Frank" -> ~REq(r, 0)
CopulaCases == {[what |-> "copula", name |-> f, q |-> q, kind |-> z, ok |-> CopulaOk(f, Nums[q])] :
                f \in Copulas, q \in 1..Len(Nums), z \in {"py", "np", "f32"}}
ZipCases == {[what |-> "zip", q |-> q, kind |-> z, ok |-> RLe(0, Nums[q])] : q \in 1..Len(Nums), z \in {"py", "np"}}

Points == <<-3, -1, "-0.25", 0, "0.5", 2, 4>>
Names == [logistic |-> "logistic", Logistic |-> "logistic", LOGISTIC |-> "logistic",
          arctan |-> "arctan", ArcTan |-> "arctan", Arctan |-> "arctan",
          logit |-> "", sigmoid |-> "", arctan2 |-> "", tanh |-> "", atan |-> "", arc |-> ""]
SigmoidAt(f, x) == IF f = "logistic" THEN RDiv(1, RAdd(1, RExp(RNeg(x))))
                   ELSE RAdd(RDiv(RAtan(x), RPi), "0.5")
SigmoidCases == {[what |-> "sigmoid", name |-> f, ok |-> Names[f] # ""] : f \in DOMAIN Names}

(* chains of scores: the two rates of a cell stay positive and together below one event per step *)
Rates == {-1, 0, 1, 2, 3}
MarkovOk(a, b, steps) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : 0 < a[q] /\ 0 < b[q] /\ a[q] + b[q] < steps
Pairs(n) == [1..n -> Rates]
MarkovCases ==
    {[what |-> "markov", form |-> f, a |-> Tup(a), b |-> Tup(b), steps |-> 4, ok |-> MarkovOk(Tup(a), Tup(b), 4)] :
        f \in {"matrix", "vector"}, a \in Pairs(2), b \in Pairs(2)}
    \union {[what |-> "markov", form |-> f, a |-> Tup(a), b |-> Tup(b), steps |-> 8, ok |-> MarkovOk(Tup(a), Tup(b), 8)] :
        f \in {"matrix", "vector"}, a \in Pairs(2), b \in Pairs(1) \union Pairs(3)}
SizeCases == {[what |-> "vectorsize", n |-> n, ok |-> n > 0] : n \in -2..3}

LinearCases == {[what |-> "linear", kind |-> z, ok |-> z \in {"int", "float", "list", "tuple"}] :
                z \in {"int", "float", "list", "tuple", "none", "str", "dict", "set"}}
MapCases == {[what |-> "map", form |-> f, kind |-> z, ok |-> z \in {"none", "true", "list", "tuple"}] :
             f \in {"grad", "hess", "hessy"}, z \in {"none", "true", "list", "tuple", "str", "int", "dict", "false"}}
FooCases == {[what |-> "foo", form |-> f, kind |-> z, ok |-> z \in {"func", "own"}] :
             f \in {"wrap", "sum", "product"}, z \in {"func", "own", "none", "num", "lambda", "class", "str"}}
SeriesCases == {[what |-> "series", kind |-> z, ok |-> z = "series"] :
                z \in {"series", "list", "array", "frame", "dict", "none", "num"}}

(* placing the features (or value axes) of a part on those of the whole              *)
Inj(m) == UNION {{w \in [1..q -> 0..m] : \A i, j \in 1..q : i # j => w[i] # w[j]} : q \in 0..3}
PlaceOk(r, w, m) == Len(w) = r /\ \A q \in 1..Len(w) : w[q] < m
Placed(sh, w, m) == Tup([k \in 1..m |-> LET at == {q \in 1..Len(w) : w[q] = k - 1} IN IF at = {} THEN 1 ELSE sh[CHOOSE q \in at : TRUE]])
PlaceCases ==
    {[what |-> "place", form |-> f, sh |-> sh, w |-> Tup(w), m |-> m, ok |-> PlaceOk(Len(sh), Tup(w), m),
      out |-> IF PlaceOk(Len(sh), Tup(w), m) THEN Placed(sh, Tup(w), m) ELSE <<>>] :
        f \in {"wrap", "sum", "product"}, sh \in {<<2>>, <<3, 2>>}, w \in Inj(3), m \in 1..3}
DimCases ==
    {[what |-> "dim", form |-> f, w |-> Tup(w), m |-> m, ok |-> PlaceOk(1, Tup(w), m),
      out |-> IF PlaceOk(1, Tup(w), m) THEN Placed(<<4>>, Tup(w), m) ELSE <<>>] :
        f \in {"wrap", "sum", "product"}, w \in {w \in Inj(3) : DOMAIN w # 1..0}, m \in 1..3}
ArgCases == {[what |-> "arg", form |-> f, at |-> q, n |-> n, ok |-> q < n] :
             f \in {"wrap", "sum", "product"}, q \in 0..3, n \in 1..3}

(* the numbers of a case (kept out of the sets: they have no common type in TLC)      *)
Full(p) == CASE p.what \in {"copula", "zip"} -> p @@ [r |-> Nums[p.q]]
             [] p.what = "sigmoid" -> p @@ [x |-> Points, v |-> IF p.ok THEN Tup([q \in 1..Len(Points) |-> SigmoidAt(Names[p.name], Points[q])]) ELSE <<>>]
             [] OTHER -> p
Parts == CopulaCases \union ZipCases \union SigmoidCases \union MarkovCases \union SizeCases \union LinearCases
         \union MapCases \union FooCases \union SeriesCases \union PlaceCases \union DimCases \union ArgCases

(* ---- a model under construction --------------------------------------------- *)
Shapes == {<<>>, <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<1, 2>>}
Masks == {[has |-> FALSE, sh |-> <<>>, spelt |-> z] : z \in {"none", "false"}}
         \union {[has |-> TRUE, sh |-> sh, spelt |-> z] : sh \in Shapes, z \in {"array", "list"}}
MaskOk(sh, m) == ~m.has \/ m.sh = sh
Add(sh, m) == [what |-> "add", sh |-> sh, mask |-> m, ok |-> MaskOk(sh, m)]

Init == hist = <<>> /\ model = <<>> /\ phase = "run"
Ask == /\ phase = "run" /\ hist = <<>> /\ phase' = "done"
       /\ \E p \in Parts : Emit(OutFile, [hist |-> <<Full(p)>>]) /\ hist' = <<p>>
       /\ UNCHANGED model
Grant == /\ phase = "run" /\ Len(hist) < MaxLen
         /\ \E sh \in Shapes, m \in Masks :
              /\ MaskOk(sh, m)
              /\ model' = Append(model, [sh |-> sh, fixed |-> m.has])
              /\ hist' = Append(hist, Add(sh, m))
         /\ UNCHANGED phase
Refuse == /\ phase = "run" /\ Len(hist) < MaxLen
          /\ \E sh \in Shapes, m \in Masks : ~MaskOk(sh, m) /\ hist' = Append(hist, Add(sh, m))
          /\ UNCHANGED <<model, phase>>
Finish == /\ phase = "run" /\ Len(hist) = MaxLen /\ phase' = "done"
          /\ (\E q \in 1..Len(hist) : ~hist[q].ok) => Emit(OutFile, [hist |-> hist, model |-> model])
          /\ UNCHANGED <<hist, model>>
Next == Ask \/ Grant \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars

Granted == Len(SelectSeq(hist, LAMBDA r : r.what = "add" /\ r.ok)) = Len(model)
Untouched == [][hist' # hist /\ ~hist'[Len(hist')].ok => model' = model]_vars
(* every part can be asked for rightly and wrongly                                      *)
Both == \A w \in {p.what : p \in Parts} : {p.ok : p \in {q \in Parts : q.what = w}} = BOOLEAN
ASSUME Both
=============================================================================

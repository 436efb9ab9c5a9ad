-------------------------------- MODULE LeviMC --------------------------------
(* Random programs and histories over the expression library. *)
EXTENDS Levi, Json
CONSTANTS GenLen, Wts
VARIABLES st, hist
vars == <<st, hist>>
RE(S) == RandomElement(S)
\* weights: a tuple of classes, repeated
Rep(x, n) == [i \in 1..n |-> x]
WHist == Rep("set", 9) \o Rep("eval", 8) \o Rep("evalp", 4) \o Rep("un", 5) \o Rep("bin", 8) \o Rep("lit", 2) \o Rep("comp", 2) \o Rep("deriv", 3)
         \o Rep("clear", 1) \o Rep("drop", 1) \o Rep("assign", 2) \o Rep("leaf", 3) \o Rep("const", 1) \o Rep("asvar", 2) \o Rep("all", 1) \o Rep("void", 1) \o Rep("evalc", 2) \o Rep("new", 3)
         \o Rep("probe", 3) \o Rep("bd", 3) \o Rep("twin", 2)
WDer == Rep("set", 4) \o Rep("eval", 2) \o Rep("evalp", 1) \o Rep("un", 8) \o Rep("bin", 11) \o Rep("lit", 3) \o Rep("comp", 3) \o Rep("deriv", 9)
         \o Rep("clear", 1) \o Rep("leaf", 3) \o Rep("const", 3) \o Rep("asvar", 2) \o Rep("dep", 4) \o Rep("all", 3)
        \o Rep("bd", 6) \o Rep("ad", 3) \o Rep("probe", 2)
WSqz == Rep("set", 6) \o Rep("eval", 3) \o Rep("un", 6) \o Rep("bin", 10) \o Rep("lit", 2) \o Rep("comp", 2) \o Rep("deriv", 4) \o Rep("sq", 4)
         \o Rep("msq", 3) \o Rep("evalq", 6) \o Rep("leaf", 3) \o Rep("const", 2) \o Rep("asvar", 2) \o Rep("all", 2) \o Rep("drop", 1) \o Rep("clear", 1)
        \o Rep("twin", 6) \o Rep("sqp", 5)
\* for expressions compiled at run time: a compilation is slow, so collections of many members
WCmp == Rep("set", 5) \o Rep("eval", 2) \o Rep("un", 9) \o Rep("bin", 12) \o Rep("div", 4) \o Rep("lit", 2) \o Rep("comp", 1) \o Rep("deriv", 5) \o Rep("leaf", 2) \o Rep("const", 1)
        \o Rep("asvar", 1) \o Rep("all", 1) \o Rep("msq", 3) \o Rep("evalq", 5) \o Rep("sqp", 1) \o Rep("twin", 1) \o Rep("root", 1) \o Rep("quo", 4)
Dims == <<<<1, 1>>, <<1, 1>>, <<3, 1>>, <<3, 1>>, <<1, 3>>, <<3, 3>>, <<3, 3>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<1, 2>>, <<2, 3>>, <<4, 1>>>>
TyFor(r, c) == {"X"} \cup (IF c = 1 THEN {"W"} ELSE {}) \cup (IF r = 1 /\ c = 1 THEN {"D"} ELSE {}) \cup (IF r = 3 /\ c = 1 THEN {"V"} ELSE {})
               \cup (IF r = 1 /\ c = 3 THEN {"R"} ELSE {}) \cup (IF r = 3 /\ c = 3 THEN {"M"} ELSE {}) \cup (IF r = 3 THEN {"N"} ELSE {}) \cup (IF r = 1 THEN {"Q"} ELSE {})
Dst(s) == LET free == (1..NSlots) \ Live(s) IN IF free # {} /\ RE(1..5) > 1 THEN RE(free) ELSE RE(1..NSlots)
Ints(n) == FoldLeft(LAMBDA acc, i : Append(acc, RE({-2, -1, 0, 1, 1, 2})), <<>>, [i \in 1..n |-> i])
Vals(g) == IF g \in {"s", "t"} THEN <<RE({1, -1, 2, -2})>> ELSE FoldLeft(LAMBDA acc, i : Append(acc, RE(-2..2)), <<>>, [i \in 1..Dim(g) |-> i])
Kind(s, tyv, tym) == IF RE(1..6) = 1 THEN [k |-> "mut", ty |-> RE(tym)] ELSE [k |-> "var", ty |-> RE(tyv)]
World(d) == [op |-> "world", y |-> Kind(d, {"V", "W"}, {"V", "W", "X"}), w |-> Kind(d, {"W"}, {"W", "X"}),
             s |-> Kind(d, {"D", "W"}, {"W", "X"}), t |-> Kind(d, {"D", "W"}, {"W", "X"})]
No == [op |-> "none"]
One(S) == CHOOSE z \in S : TRUE
\* a live slot satisfying a predicate, or 0
Pick(s, P(_)) == LET S == {k \in Live(s) : P(s.sl[k])} IN IF S = {} THEN 0 ELSE RE(S)
UnPrm(A) ==
  LET f == RE({"neg", "pos", "tr", "tr", "skew", "skew", "vee", "pow", "row", "col", "el", "el", "blk", "fblk", "cast", "copy"}) IN
  {[f |-> g] @@
     (CASE g = "pow" -> [i |-> RE({1, 2, 3, -1, -2})] [] g = "row" -> [i |-> RE(1..A.r)] [] g = "col" -> [i |-> RE(1..A.c)]
        [] g = "el" -> [i |-> RE(1..A.r), j |-> RE(1..A.c)]
        [] g = "blk" -> [i |-> RE(1..2), j |-> RE(1..2), r |-> RE(1..3), c |-> RE(1..3)]
        [] g = "fblk" -> One({[i |-> RE(1..2), j |-> RE(1..2), r |-> d[1], c |-> d[2]] : d \in {RE({<<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>})}})
        [] g = "cast" -> [ty |-> RE(TyFor(A.r, A.c))] [] OTHER -> <<>>) : g \in {f}}
\* unary commands that the matrix admits
Fits(A, c) == CASE c.f = "skew" -> A.r = 3 /\ A.c = 1 [] c.f = "vee" -> IsSkew(A) [] c.f = "pow" -> IsScalar(A)
                [] c.f \in {"blk", "fblk"} -> c.i + c.r - 1 <= A.r /\ c.j + c.c - 1 <= A.c [] OTHER -> TRUE
BinB(s, a, f) == LET A == s.sl[a] IN
  CASE f \in {"add", "sub"} -> Pick(s, LAMBDA B : B.r = A.r /\ B.c = A.c)
    [] f = "mul" -> Pick(s, LAMBDA B : IsScalar(A) \/ IsScalar(B) \/ A.c = B.r)
    [] f = "div" -> Pick(s, LAMBDA B : IsUnit(B))
    [] f = "hcat" -> Pick(s, LAMBDA B : B.r = A.r) [] OTHER -> Pick(s, LAMBDA B : B.c = A.c)
LitDims(A, f) == CASE f \in {"add", "sub"} -> <<A.r, A.c>> [] f = "div" -> <<1, 1>> [] OTHER -> RE({<<1, 1>>, <<A.r, A.r>>, <<A.c, A.c>>, <<A.c, 1>>, <<1, A.r>>})
\* candidates of a class: sets with at most one command
EvalC(s) == {[op |-> "eval", a |-> a, f |-> RE({"self", "self", "copy", "cast"})] : a \in {Pick(s, LAMBDA A : TRUE)}}
Cand(s, k) ==
  CASE k = "set" -> {[op |-> "set", g |-> g, x |-> Vals(g)] : g \in {RE({"y", "w", "s", "t"})}}
    [] k \in {"eval", "evalc"} -> EvalC(s)
    [] k = "new" -> {[op |-> "new", a |-> a] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "evalp" -> UNION {{[op |-> "evalp", a |-> a] @@ u : u \in UnPrm(s.sl[a])} : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "un" -> UNION {{[op |-> "un", dst |-> Dst(s), a |-> a] @@ u : u \in UnPrm(s.sl[a])} : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "sq" -> {[op |-> "un", dst |-> Dst(s), a |-> a, f |-> "sq"] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "bin" -> {[op |-> "bin", dst |-> Dst(s), f |-> x[2], a |-> x[1], b |-> BinB(s, x[1], x[2])]
                     : x \in {<<Pick(s, LAMBDA A : TRUE), RE({"add", "sub", "mul", "mul", "div", "hcat", "vcat"})>>}}
    \* quotients of products and quotients
    [] k = "div" -> {[op |-> "bin", dst |-> Dst(s), f |-> "div", a |-> a, b |-> Pick(s, LAMBDA B : IsUnit(B))] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "root" -> {[op |-> "root", e |-> RE({3, 7, 10, 128, 300}), m |-> RE({-1, 1})]}
    [] k = "lit" -> UNION {{[op |-> "lit", dst |-> Dst(s), f |-> f, a |-> a, left |-> RE(0..1), r |-> d[1], c |-> d[2], ty |-> RE(TyFor(d[1], d[2]) \ {"R", "W", "N", "Q"}),
                             e |-> IF f = "mul" /\ d = <<1, 1>> THEN RE(0..1) ELSE 0, n |-> IF f = "div" THEN <<RE({2, -2, 1, -1, 4})>> ELSE Ints(d[1] * d[2])]
                             : d \in {LitDims(s.sl[a], f)}} : a \in {Pick(s, LAMBDA A : TRUE)}, f \in {RE({"add", "sub", "mul", "mul", "div"})}}
    [] k = "comp" -> UNION {{[op |-> rc, dst |-> Dst(s), fx |-> RE(0..1),
                              l |-> FoldLeft(LAMBDA acc, i : Append(acc, Pick(s, LAMBDA B : IF rc = "rows" THEN B.r = 1 /\ B.c = s.sl[a].c ELSE B.c = 1 /\ B.r = s.sl[a].r)),
                                             <<a>>, [i \in 1..RE({1, 2, 2}) |-> i])]
                              : a \in {Pick(s, LAMBDA B : IF rc = "rows" THEN B.r = 1 ELSE B.c = 1)}} : rc \in {RE({"rows", "cols"})}}
    [] k = "deriv" -> {[op |-> "deriv", dst |-> Dst(s), a |-> a, col |-> RE(1..s.sl[a].c), g |-> RE(s.vars)]
                       : a \in {Pick(s, LAMBDA A : CanDiff(A))} \ (IF s.vars = {} THEN 0..NSlots ELSE {0})}
    [] k = "clear" -> {[op |-> "clear", a |-> a] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "drop" -> {[op |-> "drop", dst |-> a] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "void" -> {[op |-> "void", dst |-> a] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "assign" -> {[op |-> "assign", a |-> a, dst |-> Pick(s, LAMBDA B : B.r = s.sl[a].r /\ B.c = s.sl[a].c)] : a \in {Pick(s, LAMBDA A : TRUE)}}
    [] k = "leaf" -> {[op |-> "leaf", dst |-> Dst(s), g |-> RE({"y", "w", "s", "t"} \cup (IF s.as.k = "none" THEN {} ELSE {"a"}))]}
    [] k = "const" -> {CASE z = 1 -> [op |-> "null", dst |-> Dst(s), r |-> d[1], c |-> d[2], ty |-> RE(TyFor(d[1], d[2]))]
                         [] z = 2 -> [op |-> "eye", dst |-> Dst(s), r |-> d[1], c |-> d[2], ty |-> RE(TyFor(d[1], d[2]))]
                         [] OTHER -> [op |-> "const", dst |-> Dst(s), r |-> d[1], c |-> d[2], e |-> 0, ty |-> RE(TyFor(d[1], d[2])), n |-> Ints(d[1] * d[2])]
                       : z \in {RE(1..4)}, d \in {Dims[RE(1..Len(Dims))]}}
    [] k = "asvar" -> IF s.as.k # "none" THEN {}
                      ELSE {[op |-> "asvar", k |-> RE({"dep", "ind"}), fx |-> RE(0..1),
                             d |-> FoldLeft(LAMBDA acc, i : Append(acc, IF RE(1..2) = 1 THEN <<<<RE({1, 2, 3, 4, 5, 9}), RE({1, -1})>>>>
                                                                        ELSE <<<<RE({1, 2, 3, 4, 5, 9}), RE({1, -1})>>, <<RE({1, 2, 3, 4, 5, 10}), RE({1, -1})>>>>), <<>>, <<1, 2, 3>>)]}
    [] k = "dep" -> IF s.vars = {} THEN {} ELSE {[op |-> "dep", a |-> a, g |-> RE(s.vars)] : a \in {Pick(s, LAMBDA A : CanDiff(A))} \ {0}}
    [] k = "msq" -> {[op |-> "msq", l |-> FoldLeft(LAMBDA acc, i : Append(acc, Pick(s, LAMBDA A : TRUE)), <<>>, [i \in 1..(IF "root" \in Range(Wts) THEN RE(5..9) ELSE RE(1..4)) |-> i])]}
    [] k = "evalq" -> IF s.sq = <<>> THEN {} ELSE {[op |-> "evalq"]}
    [] OTHER -> {[op |-> "all"]}
NonZero(c) == \A f \in DOMAIN c \cap {"a", "b", "dst"} : c[f] # 0
Good(s, c) ==
  /\ c.op # "none" /\ NonZero(c)
  /\ c.op \in {"rows", "cols"} => \A i \in 1..Len(c.l) : c.l[i] # 0
  /\ c.op \in {"un", "evalp"} => (c.f = "sq" \/ Fits(s.sl[c.a], c))
  /\ c.op \in {"evalp"} => Un(s.sl[c.a], c).r > 0 /\ MOk(Un(s.sl[c.a], c))
  /\ c.op = "assign" => c.a # c.dst
  /\ c.op = "deriv" => CanDiff(s.sl[c.a])
  /\ c.op \in Building => LET M == Result(s, c) IN M.r > 0 /\ MOk(M)
Choice(s, S) == IF S = {} THEN One(EvalC(s)) ELSE LET c == One(S) IN IF Good(s, c) THEN c ELSE One(EvalC(s))
\* several commands at once: scenarios that single random commands put together too seldom
Step(acc, c) == IF acc.ok /\ Good(acc.s, c) THEN [s |-> Apply(acc.s, c), cs |-> Append(acc.cs, c), ok |-> TRUE] ELSE [acc EXCEPT !.ok = FALSE]
Run(s, cs) == FoldLeft(Step, [s |-> s, cs |-> <<>>, ok |-> TRUE], cs).cs
SetOne(g) == [op |-> "set", g |-> g, x |-> Vals(g)]
Ev(a) == [op |-> "eval", a |-> a, f |-> RE({"self", "copy", "cast"})]
Probe(a) == <<Ev(a), SetOne(RE({"y", "w", "s", "t"})), Ev(a), SetOne(RE({"y", "w", "s", "t"})), Ev(a)>>
\* products, quotients, signs, powers and accessors of scalars and of matrices scaled by them, compiled together
QStep(acc, i) ==
  One(UNION {{LET n == acc.n + 1
                  c == CASE f \in {"mul", "div", "sub", "add"} -> [op |-> "bin", dst |-> n, f |-> f, a |-> ab[1], b |-> ab[2]]
                         [] f = "neg" -> [op |-> "un", dst |-> n, a |-> ab[1], f |-> "neg"]
                         [] f = "pow" -> [op |-> "un", dst |-> n, a |-> ab[1], f |-> "pow", i |-> RE({2, 3, -1, -2})]
                         [] OTHER -> [op |-> "un", dst |-> n, a |-> ab[1], f |-> "blk", i |-> 1, j |-> 1, r |-> 1, c |-> 1]
              IN IF Good(acc.s, c) THEN [s |-> Apply(acc.s, c), cs |-> Append(acc.cs, c), n |-> n] ELSE acc
              : ab \in {<<RE(1..acc.n), IF f \in {"mul", "sub", "add"} THEN RE(1..acc.n) ELSE Pick(acc.s, LAMBDA B : IsUnit(B))>>}}
             : f \in {RE({"mul", "mul", "div", "sub", "add", "neg", "pow", "blk"})}})
QStart(s) == One({<<[op |-> "leaf", dst |-> 1, g |-> "s"], [op |-> "leaf", dst |-> 2, g |-> "t"], [op |-> "leaf", dst |-> 3, g |-> g]>> : g \in {RE({"y", "w"})}})
Quo(s) == One({LET q == FoldLeft(QStep, [s |-> FoldLeft(Apply, s, h), cs |-> h, n |-> 3], <<1, 2, 3, 4, 5, 6, 7, 8, 9>>) IN
               q.cs \o <<[op |-> "msq", l |-> FoldLeft(LAMBDA acc, i : IF i <= q.n /\ (i > q.n - 2 \/ RE(1..3) = 1) THEN Append(acc, i) ELSE acc, <<>>, <<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>)], [op |-> "evalq"], SetOne(RE({"s", "t"})), [op |-> "evalq"], SetOne(RE({"y", "w", "s", "t"})), [op |-> "evalq"]>>
               : h \in {QStart(s)}})
\* different accessors of the same matrix
TwinPrm(A) ==
  LET P(f) == CASE f = "el" -> {[f |-> "el", i |-> i, j |-> j] : i \in 1..A.r, j \in 1..A.c} [] f = "row" -> {[f |-> "row", i |-> i] : i \in 1..A.r}
                [] f = "col" -> {[f |-> "col", i |-> i] : i \in 1..A.c}
                [] OTHER -> {p \in {[f |-> "blk", i |-> i, j |-> j, r |-> r, c |-> c] : i \in 1..2, j \in 1..2, r \in 1..2, c \in 1..2} : p.i + p.r - 1 <= A.r /\ p.j + p.c - 1 <= A.c}
  IN UNION {{<<p, q>> : p \in {RE(P(f))}, q \in {RE(P(f))}} : f \in {RE({"el", "row", "col", "blk"})}}
Macro(s, k) ==
  CASE k = "probe" -> One({Probe(a) : a \in {Pick(s, LAMBDA A : TRUE)}})
    [] k = "bd" -> One(UNION {{LET b == [op |-> "bin", dst |-> x[3], f |-> x[2], a |-> x[1], b |-> y] IN
                         IF ~Good(s, b) THEN <<>>
                         ELSE <<b, [op |-> "deriv", dst |-> (x[3] % NSlots) + 1, a |-> x[3], col |-> RE(1..Result(s, b).c), g |-> RE(s.vars)]>> \o Probe((x[3] % NSlots) + 1)
                       : y \in {BinB(s, x[1], x[2])}}
                       : x \in {<<Pick(s, LAMBDA A : CanDiff(A)), RE({"add", "sub", "mul", "mul", "mul", "div", "hcat", "vcat"}), RE(1..NSlots)>>}})
    [] k = "ad" -> One(UNION {{LET b == [op |-> "un", dst |-> x[2], a |-> x[1]] @@ u IN
                         IF ~Good(s, b) THEN <<>>
                         ELSE <<b, [op |-> "deriv", dst |-> (x[2] % NSlots) + 1, a |-> x[2], col |-> RE(1..Result(s, b).c), g |-> RE(s.vars)]>> \o Probe((x[2] % NSlots) + 1)
                       : u \in UnPrm(s.sl[x[1]])}
                       : x \in {<<Pick(s, LAMBDA A : CanDiff(A) /\ A.c > 1), RE(1..NSlots)>>}})
    [] k = "quo" -> Quo(s)
    [] k = "sqp" -> One({<<[op |-> "un", dst |-> x[2], a |-> x[1], f |-> "sq"], Ev(x[2])>> \o FlattenSeq(FoldLeft(LAMBDA acc, i : Append(acc, <<SetOne(RE({"y", "w", "s", "t"})), Ev(x[2])>>), <<>>, <<1, 2, 3>>))
                       : x \in {<<Pick(s, LAMBDA A : TRUE), RE(1..NSlots)>>}})
    [] OTHER -> One(UNION {{<<[op |-> "un", dst |-> d[1], a |-> a] @@ pq[1], [op |-> "un", dst |-> d[2], a |-> a] @@ pq[2],
                               [op |-> "bin", dst |-> d[3], f |-> RE({"add", "sub", "mul", "vcat", "hcat"}), a |-> d[1], b |-> d[2]]>>
                             \o (IF RE(1..4) = 1 THEN <<>> ELSE <<[op |-> "un", dst |-> d[3], a |-> d[3], f |-> "sq"]>>) \o Probe(d[3])
                       : pq \in TwinPrm(s.sl[a]), d \in {RE({z \in ((1..NSlots) \ {a}) \X ((1..NSlots) \ {a}) \X ((1..NSlots) \ {a}) : z[1] # z[2]})}}
                       : a \in {Pick(s, LAMBDA A : TRUE)}})
Macros == {"probe", "bd", "ad", "sqp", "twin", "quo"}
Prelude == <<[op |-> "leaf", dst |-> 1, g |-> "y"], [op |-> "leaf", dst |-> 2, g |-> "s"], [op |-> "leaf", dst |-> 3, g |-> "w"], [op |-> "leaf", dst |-> 4, g |-> "t"]>>
Min2(a, b) == IF a < b THEN a ELSE b
Init == st = Fresh /\ hist = <<>>
Live0(s, P(_)) == \E k \in Live(s) : P(s.sl[k])
Ready(s, k) == CASE k \in {"bd", "ad"} /\ s.vars = {} -> FALSE [] k = "bd" -> Live0(s, LAMBDA A : CanDiff(A)) [] k = "ad" -> Live0(s, LAMBDA A : CanDiff(A) /\ A.c > 1) [] OTHER -> Live(s) # {}
Single(k) == IF hist = <<>> THEN {World(1)} ELSE IF Len(hist) <= 4 THEN {Prelude[Len(hist)]}
             ELSE IF Len(hist) = GenLen - 1 \/ Live(st) = {} THEN (IF Live(st) = {} THEN {Prelude[1]} ELSE {[op |-> "all"]}) ELSE Cand(st, k)
Many(k) == LET full == IF Len(hist) > 4 /\ k \in Macros /\ Ready(st, k) THEN Run(st, Macro(st, k)) ELSE <<>> IN full
Next ==
  /\ Len(hist) < GenLen
  /\ \E k \in {Wts[RE(1..Len(Wts))]} :
     \E m \in {Many(k)} :
     \E S \in {IF m # <<>> THEN {} ELSE IF k \in Macros THEN Single("set") ELSE Single(k)} :
     \E cs \in {IF m # <<>> THEN SubSeq(m, 1, Min2(Len(m), GenLen - Len(hist))) ELSE <<Choice(st, S)>>} :
       /\ st' = FoldLeft(Apply, st, cs)
       /\ hist' = hist \o cs
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================

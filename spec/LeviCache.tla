------------------------------ MODULE LeviCache ------------------------------
(* The evaluation protocol of the expression library: every node caches its  *)
(* value and knows, through numbered readers, which of them saw the current  *)
(* one.  A node is read through handles (of the user, and of the nodes built *)
(* on it) and watches the sources it depends on.  TLC enumerates all graphs  *)
(* of N nodes over the two variables and all interleavings of assignments,   *)
(* reads through any handle, enquiries for news, copies and drops of handles *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* number of nodes; 1 and 2 are variables
          MaxH      \* user handles alive at the same time
Leaf == {1, 2}
Nodes == 1..N
\* kind of a node: variable, operation, variable defined by an expression (dependent on its sources, or independent of them)
Kinds == {"op", "dep", "ind"}
GraphOf(n) == {[k |-> "op", ch |-> <<a, b>>] : a \in 1..(n - 1), b \in 1..(n - 1)} \cup {[k |-> x, ch |-> <<a>>] : x \in {"dep", "ind"}, a \in 3..(n - 1)}
Var == [k |-> "var", ch |-> <<>>]
VARIABLES g,      \* the graph: for every node its kind and what it is computed from
          val,    \* values of the variables
          cnt, done, buf,      \* per node: news counter, value computed since the last news, cached value
          reg, bin,            \* per node: what each reader saw, readers' numbers free for reuse
          hnd,    \* the user's handles: set of <<node, reader>>
          inner,  \* readers of the nodes built on a node: <<node, position>> -> reader of that child
          watch,  \* readers of the sources: <<node, source>> -> reader
          bad     \* a read returned something else than the current value
vars == <<g, val, cnt, done, buf, reg, bin, hnd, inner, watch, bad>>
\* current value of a node
RECURSIVE True(_, _, _)
True(gr, v, n) == IF n \in Leaf THEN v[n]
                  ELSE IF gr[n].k = "op" THEN True(gr, v, gr[n].ch[1]) + 2 * True(gr, v, gr[n].ch[2]) + n
                  ELSE True(gr, v, gr[n].ch[1])
\* sources a node built on n must watch
RECURSIVE Deps(_, _)
Deps(gr, n) == IF n \in Leaf THEN {n}
               ELSE IF gr[n].k = "op" THEN Deps(gr, gr[n].ch[1]) \cup Deps(gr, gr[n].ch[2])
               ELSE IF gr[n].k = "dep" THEN Deps(gr, gr[n].ch[1]) \cup {n} ELSE {n}
\* sources a node watches itself (a variable defined by an expression follows the sources of the expression)
Own(gr, n) == IF n \in Leaf THEN {} ELSE UNION {Deps(gr, gr[n].ch[i]) : i \in 1..Len(gr[n].ch)}
Upd(q, i, x) == [q EXCEPT ![i] = x]
All(x) == SubSeq(<<x, x, x, x, x, x, x, x>>, 1, N)
\* a new reader of node n: a recycled number if there is one; it has seen nothing yet
Attach(st, n) == IF st.bin[n] # <<>>
  THEN LET i == st.bin[n][Len(st.bin[n])] IN
       [st |-> [st EXCEPT !.bin[n] = SubSeq(@, 1, Len(@) - 1), !.reg[n] = Upd(@, i, st.cnt[n] - 1)], id |-> i]
  ELSE [st |-> [st EXCEPT !.reg[n] = Append(@, st.cnt[n] - 1)], id |-> Len(st.reg[n]) + 1]
Detach(st, n, i) == [st EXCEPT !.reg[n] = Upd(@, i, st.cnt[n] - 1), !.bin[n] = Append(@, i)]
Renew(st, n) == [st EXCEPT !.cnt[n] = @ + 1, !.done[n] = FALSE]
\* is there news for reader i of node n?  Asks the sources in order, and stops at the first that has news
RECURSIVE News(_, _, _), Ask(_, _, _)
Ask(st, n, S) == IF S = {} THEN [st |-> st, b |-> FALSE]
                 ELSE LET d == CHOOSE x \in S : \A z \in S : x <= z
                          r == News(st, d, st.watch[<<n, d>>]) IN
                      IF r.b THEN [st |-> r.st, b |-> TRUE] ELSE Ask(r.st, n, S \ {d})
News(st, n, i) == LET r == Ask(st, n, Own(st.g, n))
                      s2 == IF r.b THEN Renew(r.st, n) ELSE r.st IN
                  [st |-> s2, b |-> s2.reg[n][i] # s2.cnt[n]]
RECURSIVE Seen(_, _, _)
Seen(st, n, S) == IF S = {} THEN st
                  ELSE LET d == CHOOSE x \in S : TRUE IN Seen([st EXCEPT !.reg[d] = Upd(@, st.watch[<<n, d>>], st.cnt[d])], n, S \ {d})
\* reading node n as reader i
RECURSIVE Read(_, _, _)
Read(st, n, i) ==
  LET r == News(st, n, i)  s == r.st IN
  IF ~r.b THEN [st |-> s, v |-> s.buf[n]]
  ELSE IF s.done[n] THEN [st |-> Seen([s EXCEPT !.reg[n] = Upd(@, i, s.cnt[n])], n, Own(s.g, n)), v |-> s.buf[n]]
  ELSE LET a == IF n \in Leaf THEN [st |-> s, v |-> s.val[n]] ELSE Read(s, s.g[n].ch[1], s.inner[<<n, 1>>])
           b == IF n \notin Leaf /\ s.g[n].k = "op" THEN Read(a.st, s.g[n].ch[2], s.inner[<<n, 2>>]) ELSE [st |-> a.st, v |-> 0]
           v == IF n \notin Leaf /\ s.g[n].k = "op" THEN a.v + 2 * b.v + n ELSE a.v
           t == [b.st EXCEPT !.buf[n] = v, !.reg[n] = Upd(@, i, b.st.cnt[n]), !.done[n] = TRUE] IN
       [st |-> Seen(t, n, Own(s.g, n)), v |-> v]
\* building: a node attaches to what it is computed from and to the sources it watches
RECURSIVE Build(_, _), WatchAll(_, _, _)
WatchAll(st, n, S) == IF S = {} THEN st
                      ELSE LET d == CHOOSE x \in S : \A z \in S : x <= z
                               r == Attach(st, d) IN
                           WatchAll([r.st EXCEPT !.watch = (<<n, d>> :> r.id) @@ @], n, S \ {d})
Kids(st, n) == LET a == Attach(st, st.g[n].ch[1])
                   s1 == [a.st EXCEPT !.inner = (<<n, 1>> :> a.id) @@ @] IN
               IF st.g[n].k # "op" THEN s1
               ELSE LET b == Attach(s1, st.g[n].ch[2]) IN [b.st EXCEPT !.inner = (<<n, 2>> :> b.id) @@ @]
Build(st, n) == IF n > N THEN st ELSE IF n \in Leaf THEN Build(st, n + 1)
                ELSE Build(WatchAll(Kids(st, n), n, Own(st.g, n)), n + 1)
Empty(gr) == [g |-> gr, val |-> <<0, 0>>, cnt |-> All(0), done |-> All(FALSE), buf |-> All(0), reg |-> All(<<>>), bin |-> All(<<>>), inner |-> <<>>, watch |-> <<>>]
Cur == [g |-> g, val |-> val, cnt |-> cnt, done |-> done, buf |-> buf, reg |-> reg, bin |-> bin, inner |-> inner, watch |-> watch]
Become(st) == /\ g' = st.g /\ val' = st.val /\ cnt' = st.cnt /\ done' = st.done /\ buf' = st.buf /\ reg' = st.reg /\ bin' = st.bin
              /\ inner' = st.inner /\ watch' = st.watch
Init == /\ g = <<Var, Var>> /\ val = <<0, 0>> /\ cnt = <<>> /\ done = <<>> /\ buf = <<>> /\ reg = <<>> /\ bin = <<>>
        /\ inner = <<>> /\ watch = <<>> /\ hnd = {} /\ bad = FALSE
Ready == cnt # <<>>
\* the graph is chosen node by node, then built
Grow == /\ ~Ready /\ hnd' = {} /\ bad' = FALSE
        /\ IF Len(g) < N THEN /\ \E d \in GraphOf(Len(g) + 1) : g' = Append(g, d)
                              /\ UNCHANGED <<val, cnt, done, buf, reg, bin, inner, watch>>
           ELSE Become(Build(Empty(g), 1))
\* a variable takes a value (also the one it has)
Assign(n, x) == /\ Become([Renew(Cur, n) EXCEPT !.val[n] = x]) /\ UNCHANGED <<hnd, bad>>
Hold(n) == /\ Cardinality(hnd) < MaxH
           /\ LET r == Attach(Cur, n) IN Become(r.st) /\ hnd' = hnd \cup {<<n, r.id>>} /\ UNCHANGED bad
Drop(h) == /\ Become(Detach(Cur, h[1], h[2])) /\ hnd' = hnd \ {h} /\ UNCHANGED bad
Look(h) == LET r == Read(Cur, h[1], h[2]) IN Become(r.st) /\ bad' = (r.v # True(g, val, h[1])) /\ UNCHANGED hnd
Enquire(h) == LET r == News(Cur, h[1], h[2]) IN Become(r.st) /\ UNCHANGED <<hnd, bad>>
Next == \/ Grow
        \/ Ready /\ (\/ \E n \in Leaf : \E x \in {0, 1} : Assign(n, x)
                     \/ \E n \in 3..N : Hold(n)
                     \/ \E h \in hnd : Drop(h) \/ Look(h) \/ Enquire(h))
Spec == Init /\ [][Next]_vars
\* what matters of a state: who has seen the current value of whom (counters and readers' numbers may be renamed),
\* and the cached values that somebody may still be given
Fresh(n, i) == reg[n][i] = cnt[n]
Sight == IF ~Ready THEN <<g>> ELSE
  <<g, val, done, [n \in Nodes |-> IF done[n] THEN buf[n] ELSE 0], {p \in DOMAIN inner : Fresh(g[p[1]].ch[p[2]], inner[p])},
    {p \in DOMAIN watch : Fresh(p[2], watch[p])}, [n \in Nodes |-> LET H == {h \in hnd : h[1] = n} IN
       <<Cardinality(H), Cardinality({h \in H : Fresh(n, h[2])}), Len(bin[n])>>], bad>>
NeverStale == ~bad
\* a reader that has seen the current value finds it in the cache
Coherent == Ready => \A h \in hnd : LET r == News(Cur, h[1], h[2]) IN ~r.b => buf[h[1]] = True(g, val, h[1])
\* no number is given to two readers
Distinct == Ready => \A n \in Nodes :
  LET ids == {<<<<"h", 0>>, h[2]>> : h \in {z \in hnd : z[1] = n}} \cup {<<<<"i", p>>, inner[p]>> : p \in {q \in DOMAIN inner : g[q[1]].ch[q[2]] = n}}
             \cup {<<<<"w", p>>, watch[p]>> : p \in {q \in DOMAIN watch : q[2] = n}} IN
  /\ Cardinality({x[2] : x \in ids}) = Cardinality(ids)
  /\ \A x \in ids : x[2] \notin {bin[n][i] : i \in 1..Len(bin[n])}
=============================================================================

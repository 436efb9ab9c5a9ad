--------------------------------- MODULE StartMC ---------------------------------
(* Random worlds and sequences of the initial state helpers. *)
EXTENDS RTermsMC
CONSTANT Len7
ST == INSTANCE Start
VARIABLES wd, last
vars7 == <<w, ts, hist, wd, last>>
GInit7 == w = [n |-> 0] /\ ts = <<>> /\ hist = <<>> /\ wd = <<>> /\ last = "none"
Do7(c) == hist' = Append(hist, c) /\ UNCHANGED <<w, ts>>
FootDims(d) == One({[l |-> z[1], d |-> z[2], tl |-> P3(-2..2)] : z \in {IF RE(1..30) = 1 THEN <<0, 0>> ELSE <<RE({2, 4, 6}), RE({2, 4})>>}})
\* corners in the sole, top left, top right, bottom left, bottom right
Corners(f, n) == IF f.l = 0 THEN [i \in 1..n |-> <<0, 0, 0>>] @@ <<>>
  ELSE SubSeq(<<f.tl, VAdd(f.tl, <<0, -f.d, 0>>), VAdd(f.tl, <<-f.l, 0, 0>>), VAdd(f.tl, <<-f.l, -f.d, 0>>), f.tl>>, 1, n)
\* soles parallel to the links, links parallel to each other: ordinary robots; and others
Plain(rob) == [rob EXCEPT !.links = [i \in 1..Len(@) |-> [@[i] EXCEPT !.rr = Id3]], !.frames = [k \in 1..Len(@) |-> [@[k] EXCEPT !.R = Id3]]]
\* everything in the plane of the walk
Flat7(rob) == [rob EXCEPT !.links = [i \in 1..Len(@) |-> [@[i] EXCEPT !.rr = Id3, !.ax = 2, !.o[2] = 0, !.off[2] = 0, !.c[2] = 0]], !.frames = [k \in 1..Len(@) |-> [@[k] EXCEPT !.R = Id3, !.p[2] = 0]]]
World7(d) ==
  One(UNION {UNION {{[op |-> "world", robot |-> IF k <= 5 THEN Plain(rob) ELSE IF k = 6 THEN Flat7(rob) ELSE rob, fb |-> RE(1..Len(rob.links)), fr |-> fr, g |-> RE({-981, -981, -981, -162, -2000}),
               foot |-> <<f1, f2>>, pts |-> <<Corners(f1, n), Corners(f2, n)>>, bad |-> IF RE(1..25) = 1 THEN 1 ELSE 0]
       : fr \in {RE({z \in (1..(Len(rob.links) + 2)) \X (1..(Len(rob.links) + 2)) : z[1] # z[2]})}, k \in {RE(1..8)}, f1 \in {FootDims(1)}, f2 \in {FootDims(2)}, n \in {IF RE(1..15) = 1 THEN RE({3, 5}) ELSE 4}}
       : rob \in {RobotOf(RE(2..5), 2)}} : dummy \in {0}})
JointsFor(rob) == LET n == Len(rob.links) - 1 IN
  One({IF k <= 4 THEN [i \in 1..n |-> 0] @@ <<>> ELSE IF k = 5 /\ RE(1..3) = 1 THEN Vec(n + 1, -1..2) ELSE Vec(n, -1..2) : k \in {RE(1..12)}})
HeightOf(d) == RE({RE(-8..8), RE(-40..40), RE({-3000, 240, 1000, 4000, 0, 0})})
Put7 == [op |-> "put", bp |-> <<RE(-2..2), RE(-2..2), HeightOf(1)>>, q |-> RE(Q124), s |-> JointsFor(wd.robot), t |-> RE(0..3), mom |-> Vec(6, -2..2), f |-> RE(0..9)]
GNext7 ==
  /\ Len(hist) < Len7
  /\ IF Len(hist) % 8 = 0 THEN \E x \in {World7(hist)} : wd' = x /\ last' = "none" /\ Do7(x)
     ELSE \E r \in {RE(1..10)} : UNCHANGED wd /\
          CASE r <= 4 -> \E s \in {JointsFor(wd.robot)} : last' = (IF ST!CanFill(wd @@ [ok |-> TRUE], s) THEN "ok" ELSE "none") /\ Do7([op |-> "fill", s |-> s])
            [] r \in 5..7 /\ last # "none" -> last' = "none" /\ Do7([op |-> "min"])
            [] OTHER -> \E c \in {Put7} : last' = "ok" /\ Do7(c)
GSpec7 == GInit7 /\ [][GNext7]_vars7
Emit7 == Len(hist) = Len7 => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the implementation (one JSON   *)
(* line: arguments and outcome) must be a step of Api.  The driver reports *)
(* the first line that is not.                                             *)
(***************************************************************************)
EXTENDS Api, Effort, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

TraceSlots == 0..3

ev == Log[l]
Is(op) == l <= Len(Log) /\ Log[l].op = op /\ l' = l + 1

(* data of a build: listed, or given by a formula so that large traces stay small *)
Gen(g) ==
    LET m == g.m
        pt(i) == [j \in 1..Len(g.a) |-> g.s[j] * ((((g.a[j] * (i % m)) + g.b[j]) % m) \div g.q[j]) + g.c[j]]
    IN [i \in 1..g.n |-> pt(i - 1)]
PtsOf(e) == IF "gen" \in DOMAIN e THEN TLCEval(Gen(e.gen)) ELSE e.pts
NumPts(e) == IF "gen" \in DOMAIN e THEN e.gen.n ELSE Len(e.pts)
Column(P, a) == TLCEval([i \in 1..Len(P) |-> P[i][a]])
LeafOf(e) == IF e.leaf < 0 THEN 2000000000 ELSE e.leaf
Bad(e) == IF "bad" \in DOMAIN e THEN {<<e.bad[i][1], e.bad[i][2]>> : i \in 1..Len(e.bad)} ELSE {}
IsBad(e) == "bad" \in DOMAIN e /\ Len(e.bad) > 0
Opt(e, f, x) == IF f \in DOMAIN e THEN e[f] ELSE x

(* results that are not answers (panic, crash, hang, unknown errors) match nothing *)
Crashed(e) == e.res \in {"panic", "crash", "hang"}

Flag(e, f) == f \in DOMAIN e /\ e[f]
ModeOf(e) == IF Flag(e, "wild") THEN "wild" ELSE IF Flag(e, "wide") THEN "wide"
             ELSE IF "apart" \in DOMAIN e THEN (IF e.apart[2] > 0 THEN "tall" ELSE "flat")
             ELSE "exact"
ApartOf(e) == IF "apart" \in DOMAIN e THEN e.apart[1] + 1 ELSE 0

(* the error for invalid input names one of the invalid points; rows are the
   points as they were before they were made invalid *)
RowBad(b) == IF Len(b) > 2 THEN b[3] ELSE 0
NamesPoint(e, rows) ==
    e.res = "Invalid" =>
        /\ "ept" \in DOMAIN e
        /\ \E i \in 1..Len(e.bad) :
             LET r == RowBad(e.bad[i])
                 row == rows[r + 1]
             IN /\ Len(e.ept) = Len(row)
                /\ \A a \in 1..Len(row) :
                     LET here == {j \in 1..Len(e.bad) : RowBad(e.bad[j]) = r /\ e.bad[j][1] = a}
                     IN IF here = {} THEN e.ept[a][1] = "num" /\ e.ept[a][2] = row[a]
                                     ELSE \E j \in here : e.ept[a][1] = e.bad[j][2]
QueryRows(e) == IF e.op \in {"q1", "qk"} THEN <<e.q>> ELSE e.qs

TNew == /\ Is("new")
        /\ ~Crashed(ev)
        /\ BuildAs(ev.s, PtsOf(ev), LeafOf(ev), IsBad(ev), ev.res, Opt(ev, "size", -1), ModeOf(ev), ApartOf(ev))
        /\ Holds(ev.res = "Invalid" => NamesPoint(ev, PtsOf(ev)))
        /\ Holds((ev.res = "ok" /\ "cmps" \in DOMAIN ev) => BuiltWith(NumPts(ev), LeafOf(ev), ev.cmps))
TBox == Is("box") /\ SetBox(ev.s, ev.L, Bad(ev), ev.res)
TQ1 == /\ Is("q1")
       /\ Holds(NamesPoint(ev, QueryRows(ev)))
       /\ Query1(ev.s, ev.q, IsBad(ev), ev.res, Opt(ev, "d", -1), Opt(ev, "i", -1),
                 Opt(ev, "pos", <<>>), "pos" \in DOMAIN ev)
TQk == /\ Is("qk")
       /\ Holds(NamesPoint(ev, QueryRows(ev)))
       /\ QueryK(ev.s, ev.q, ev.k, IsBad(ev), ev.res, Opt(ev, "d", <<>>), Opt(ev, "i", <<>>),
                 Opt(ev, "pos", <<>>), "pos" \in DOMAIN ev)
TiledOK(c) ==
    (c.res = "ok" /\ "tile" \in DOMAIN c) =>
        /\ "n" \in DOMAIN c
        /\ IF c.op = "batch" THEN Tiled(trees[c.s], c.qs, c.k, c.tile, c.n, Opt(c, "alt", <<>>))
                             ELSE AxisTiled(trees[c.s], c.qs, c.k, c.ax, c.tile, c.n, Opt(c, "alt", <<>>))
TBatch == /\ Is("batch")
          /\ Holds(TiledOK(ev))
          /\ Holds(NamesPoint(ev, QueryRows(ev)))
          /\ Batch(ev.s, ev.qs, ev.k, IsBad(ev), ev.res, Opt(ev, "d", <<>>), Opt(ev, "i", <<>>))
TAxis == /\ Is("axis")
         /\ Holds(TiledOK(ev))
         /\ Holds(NamesPoint(ev, QueryRows(ev)))
         /\ Axis(ev.s, ev.qs, ev.k, ev.ax, IsBad(ev), ev.res, Opt(ev, "a", <<>>), Opt(ev, "b", <<>>),
                 Opt(ev, "i", <<>>), "i" \in DOMAIN ev)
TDump == Is("dump") /\ ev.res = "ok" /\ Dump(ev.s, ev.nodes, ev.size, ev.own, ev.root, ev.same)
TDrop == Is("drop") /\ ev.res = "ok" /\ DropTree(ev.s)

(* concurrent clients of one or more trees: every call of every thread is a
   correct answer on its own; trees do not change *)
CallOK(c) ==
    /\ trees[c.s].live
    /\ NamesPoint(c, QueryRows(c))
    /\ TiledOK(c)
    /\ CASE c.op = "q1" -> Query1Ans(trees[c.s], c.q, IsBad(c), c.res, Opt(c, "d", -1),
                                     Opt(c, "i", -1), Opt(c, "pos", <<>>), "pos" \in DOMAIN c)
         [] c.op = "qk" -> QueryKAns(trees[c.s], c.q, c.k, IsBad(c), c.res, Opt(c, "d", <<>>),
                                     Opt(c, "i", <<>>), Opt(c, "pos", <<>>), "pos" \in DOMAIN c)
         [] c.op = "batch" -> BatchAns(trees[c.s], c.qs, c.k, IsBad(c), c.res, Opt(c, "d", <<>>),
                                       Opt(c, "i", <<>>))
         [] c.op = "axis" -> AxisAns(trees[c.s], c.qs, c.k, c.ax, IsBad(c), c.res, Opt(c, "a", <<>>),
                                     Opt(c, "b", <<>>), Opt(c, "i", <<>>), "i" \in DOMAIN c)
Answer(c) == <<c.res, Opt(c, "d", 0), Opt(c, "i", 0), Opt(c, "a", 0), Opt(c, "b", 0)>>
TConc == /\ Is("conc")
         /\ ev.res = "ok"
         /\ Holds(\A t \in 1..Len(ev.thr) : \A i \in 1..Len(ev.thr[t]) : CallOK(ev.thr[t][i]))
         \* threads that ask trees of one and the same build get the same answers
         /\ Holds(Flag(ev, "same") =>
                \A t \in 2..Len(ev.thr) : \A i \in 1..Len(ev.thr[t]) :
                    Answer(ev.thr[t][i]) = Answer(ev.thr[1][i]))
         /\ Unchanged

\* calls, and whole lives of trees, repeated many times
TAgain == /\ Is("again") /\ ev.res = "ok"
          /\ Holds(\A i \in 1..Len(ev.calls) : CallOK(ev.calls[i]))
          /\ Holds(GivesBack(ev.n, ev.grow))
          /\ Unchanged
\* asked many times over: no later outcome is different
TMany == /\ Is("many") /\ ev.res = "ok"
         /\ Holds(\A i \in 1..Len(ev.calls) : CallOK(ev.calls[i]))
         /\ ev.differ = 0 /\ ev.other = <<>>
         /\ Unchanged
TRemake == /\ Is("remake") /\ ev.res = "ok"
           /\ Holds(GivesBack(ev.n, ev.grow))
           /\ Drop(ev.s)

\* the distances that calls computed, against the part of the tree that matters
KOf(c) == CASE c.op = "q1" -> 1 [] c.k < 0 -> 2000000000 [] OTHER -> c.k
TWork == /\ Is("work") /\ ev.res = "ok"
         /\ Holds(\A i \in 1..Len(ev.calls) : CallOK(ev.calls[i]))
         /\ LET t == trees[ev.s]
                w == TLCEval(Whole(t.pts, ev.nodes, Tops(ev.nodes), ev.root))
            IN Holds(\A i \in 1..Len(ev.calls) :
                       LET c == ev.calls[i]
                       IN c.res = "ok" => SpentOK(t.pts, w, QueryRows(c), KOf(c), t.box, ev.per, c.subs))
         /\ Unchanged

THelper == /\ Is("hd") /\ ev.res = "ok"
           /\ Holds(HelperDist(ev.x, ev.y, ev.ax, ev.d, ev.tot, ev.a, ev.b)) /\ Unchanged
TSpace == /\ Is("hs") /\ ev.res = "ok" /\ Holds(HelperBox(ev.q, ev.lo, ev.hi, ev.d)) /\ Unchanged
TBest == /\ Is("hb") /\ ev.res = "ok"
         /\ Holds(HelperBest(ev.q, ev.c, ev.best0, ev.best1, ev.rep))
         /\ Holds(HelperBest(ev.q, ev.c, ev.best0, ev.sbest1, ev.srep))
         /\ ev.sret = ev.srep
         /\ Unchanged
TSplit == /\ Is("moms") /\ ev.res = "ok"
          /\ Holds(Split(Column(PtsOf(ev), ev.ax + 1), ev.order, ev.inv, ev.nl))
          /\ Unchanged

TraceInit == ApiInit /\ l = 1
TraceNext == \/ TNew \/ TBox \/ TQ1 \/ TQk \/ TBatch \/ TAxis \/ TDump \/ TDrop \/ TConc \/ TAgain \/ TRemake \/ TMany \/ TWork
             \/ THelper \/ TSpace \/ TBest \/ TSplit
TraceSpec == TraceInit /\ [][TraceNext]_<<trees, l>>

(* one state per consumed line, plus the initial one *)
TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Log) THEN PrintT(<<"ACCEPTED", d>>)
       ELSE PrintT(<<"REJECTED", d + 1>>)
=============================================================================

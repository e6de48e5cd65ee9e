------------------------------ MODULE PyTrace -------------------------------
(***************************************************************************)
(* Trace validation of the Python bindings: the library's contract (Api)   *)
(* behind Python arguments (layouts, dtypes, optional arguments), numpy    *)
(* results with shapes and dtypes, exceptions, and object lifetimes        *)
(* (PyLife).  res is "ok", "exc" (an ordinary exception), "panic" (a       *)
(* PanicException) or "crash"/"hang".                                      *)
(***************************************************************************)
EXTENDS Trace, PyLife

VARIABLE arrs     \* description of each array by id

ArrOf(e) == [pts |-> PtsOf(e), ty |-> e.ty, cols |-> e.cols, nd |-> e.nd, contig |-> e.contig, bad |-> Bad(e)]
Same == UNCHANGED <<trees, arrs, named, held>>

PArr == /\ Is("arr") /\ ev.res = "ok"
        /\ MkArr(ev.a)
        /\ arrs' = [a \in DOMAIN arrs \cup {ev.a} |-> IF a = ev.a THEN ArrOf(ev) ELSE arrs[a]]
        /\ UNCHANGED trees
PUnref == Is("unref") /\ ev.res = "ok" /\ Unref(ev.a) /\ UNCHANGED <<trees, arrs>>
PChurn == Is("churn") /\ ev.res = "ok" /\ Same
PAlive == Is("alive") /\ ev.res = "ok" /\ ev.alive = Alive(ev.a) /\ Same
\* arrays returned earlier are as they were
PRecheck == Is("recheck") /\ ev.res = "ok" /\ ev.same /\ Same

(* box argument: [L, ty, contig, nd, bad] or absent *)
HasBox(e) == "box" \in DOMAIN e
BoxWrong(e, A) ==
    HasBox(e) =>
        LET b == e.box
            bad == {<<b.bad[i][1], b.bad[i][2]>> : i \in 1..Len(b.bad)}
        IN \/ b.ty # e.ty \/ ~b.contig \/ b.nd # 1
           \/ Len(b.L) # A.cols
           \/ BoxCauses([pts |-> A.pts], b.L, bad) # {}
TreeWrong(e, A) ==
    \/ A.nd # 2 \/ A.ty # e.ty \/ ~A.contig \/ A.cols \notin {2, 3}
    \/ Len(A.pts) = 0 \/ A.bad # {}
    \/ e.leaf < 0 \/ Opt(e, "psl", 0) < 0 \/ "odd" \in DOMAIN e
    \/ (HasBox(e) /\ BoxWrong(e, A))

PTree == /\ Is("tree") /\ ~Crashed(ev)
         /\ LET A == arrs[ev.a]
            IN IF Holds(TreeWrong(ev, A))
               THEN /\ ev.res = "exc"
                    /\ Release(ev.s) /\ Drop(ev.s)
               ELSE /\ ev.res = "ok"
                    /\ TakeHold(ev.s, ev.a)
                    /\ trees' = [trees EXCEPT ![ev.s] =
                          [MkTree(A.pts, ev.leaf) EXCEPT !.box = IF HasBox(ev) THEN ev.box.L ELSE <<>>]]
         /\ UNCHANGED arrs
PDrop == Is("drop") /\ ev.res = "ok" /\ Release(ev.s) /\ Drop(ev.s) /\ UNCHANGED arrs

(* q: k is absent for None *)
QueryWrong(t, e) ==
    \/ e.nd # 2 \/ e.qty # e.ty \/ ~e.contig \/ e.cols # Len(t.pts[1])
    \/ IsBad(e)
    \/ Opt(e, "k", 1) < 0
    \/ ("ax" \in DOMAIN e /\ e.ax \notin 0..(Len(t.pts[1]) - 1))
    \/ "odd" \in DOMAIN e

PyAns(t, e) ==
    IF Crashed(e) THEN FALSE
    ELSE IF QueryWrong(t, e) THEN e.res = "exc"
    ELSE LET nq == Len(e.qs)
             m == nq * Opt(e, "tile", 1)      \* the list may be copies of qs
             k == Opt(e, "k", 1)
             K == Rows(t, k)
             f == IF e.ty = "f32" THEN "float32" ELSE "float64"
         IN /\ e.res = "ok"
            /\ IF "ax" \in DOMAIN e
               THEN /\ e.shape = <<<<m, K>>, <<m, K>>>>
                    /\ e.dt = <<f, f>>
                    /\ AxisAns(t, e.qs, k, e.ax, FALSE, "ok", e.x, e.y, <<>>, FALSE)
               ELSE /\ e.dt = <<f, "uint64">>
                    /\ IF k = 1
                       THEN /\ e.shape = <<<<m>>, <<m>>>>
                            /\ Len(e.x) = nq /\ Len(e.y) = nq
                            /\ \A j \in 1..nq : NearestOK(t, e.qs[j], e.x[j], e.y[j])
                       ELSE /\ e.shape = <<<<m, K>>, <<m, K>>>>
                            /\ BatchAns(t, e.qs, k, FALSE, "ok", e.x, e.y)
            \* other rows than the first copy's, with the query they answer
            /\ m > nq => /\ "alt" \in DOMAIN e
                         /\ \A j \in 1..Len(e.alt) :
                              LET r == e.alt[j]
                                  one == <<e.qs[r.q + 1]>>
                              IN IF "ax" \in DOMAIN e
                                 THEN AxisAns(t, one, k, e.ax, FALSE, "ok", r.x, r.y, <<>>, FALSE)
                                 ELSE BatchAns(t, one, k, FALSE, "ok", r.x, r.y)

PQuery == Is("query") /\ trees[ev.s].live /\ Holds(PyAns(trees[ev.s], ev)) /\ Same
PThreads == /\ Is("threads") /\ ev.res = "ok"
            /\ Holds(\A t \in 1..Len(ev.thr) : \A i \in 1..Len(ev.thr[t]) :
                        LET e == ev.thr[t][i] IN trees[e.s].live /\ PyAns(trees[e.s], e))
            /\ Same

\* repeated queries and constructions leave no memory behind, and no references to their arguments
PAgain == /\ Is("again") /\ ev.res = "ok"
          /\ trees[ev.s].live
          /\ Holds(PyAns(trees[ev.s], ev.call))
          /\ Holds(GivesBack(ev.n, ev.grow)) /\ ev.refs = 0
          /\ Same
PRemake == /\ Is("remake") /\ ev.res = "ok"
           /\ Holds(GivesBack(ev.n, ev.grow)) /\ ev.refs = 0
           /\ Release(ev.s) /\ Drop(ev.s) /\ UNCHANGED arrs

PInit == TraceInit /\ LifeInit(Slots) /\ arrs = <<>>
\* sessions are separated by "reset": everything is dropped
PReset == /\ Is("reset") /\ ev.res = "ok"
          /\ trees' = [s \in Slots |-> NoTree]
          /\ named' = {} /\ held' = [s \in Slots |-> -1] /\ arrs' = <<>>
PNext == PArr \/ PUnref \/ PChurn \/ PAlive \/ PRecheck \/ PTree \/ PDrop \/ PQuery \/ PThreads \/ PReset \/ PAgain \/ PRemake
PSpec == PInit /\ [][PNext]_<<trees, l, arrs, named, held>>
=============================================================================

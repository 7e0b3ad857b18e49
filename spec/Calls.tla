---- MODULE Calls ----
(***************************************************************************)
(* The public calls as data, so that a behaviour of a model is a sequence  *)
(* of calls that can be replayed into the library.                         *)
(*                                                                         *)
(* A call is a tuple of a name and integers.  Quantities are integers in   *)
(* units of 1/64 (exact in single precision); Huge stands for infinity and *)
(* Nan for a NaN.                                                          *)
(***************************************************************************)
EXTENDS World

Huge == 1000000
Nan == 1000001
Q(n) == IF n = Huge THEN RInf ELSE IF n = Nan THEN RInf -- RInf ELSE Rat(n, 64)
Q3(c, k) == <<Q(c[k]), Q(c[k + 1]), Q(c[k + 2])>>
One == 64

\* <<..., own, position, rotation, velocity, angular velocity>> from index k on
EntityAt(c, k) == [own |-> Q(c[k]), p |-> Q3(c, k + 1), r |-> Q3(c, k + 4), v |-> Q3(c, k + 7), w |-> Q3(c, k + 10)]
SurfAt(c, k) == [e |-> Q(c[k]), ft |-> Q(c[k + 1]), sf |-> Q(c[k + 2]), df |-> Q(c[k + 3])]
\* <<..., kind, data>> from index k on
ColliderAt(c, k) ==
  CASE c[k] = "N" -> [p |-> Q3(c, k + 1), m |-> Q(c[k + 4]), I |-> MDiag(Q3(c, k + 5))]
    [] c[k] = "S" -> [p |-> Q3(c, k + 1), m |-> Q(c[k + 4]), r |-> Q(c[k + 5])] @@ SurfAt(c, k + 6)
    [] c[k] = "P" -> [p |-> Q3(c, k + 1), m |-> Q(c[k + 4]), n |-> Q3(c, k + 5)] @@ SurfAt(c, k + 8)
    [] c[k] = "B" -> [p |-> Q3(c, k + 1), m |-> Q(c[k + 4]), lo |-> Q3(c, k + 5), hi |-> Q3(c, k + 8)] @@ SurfAt(c, k + 11)

\* What an entity reads as, for calls that write back.
ReadBack(e) == [own |-> e.own, p |-> e.p, q |-> e.q, v |-> e.v, w |-> e.w]

\* Does the call succeed?
Can(w, c) ==
  CASE c[1] = "addE" -> CanAddEntity(EntityAt(c, 2))
    [] c[1] = "updE" -> CanUpdateEntity(w, c[2], EntityAt(c, 3))
    [] c[1] = "addC" -> CanAddCollider(c[2], ColliderAt(c, 2))
    [] c[1] = "updC" -> CanUpdateCollider(w, c[2], c[3], ColliderAt(c, 3))
    [] c[1] = "link" -> CanLink(w, c[2], c[3])
    [] c[1] = "wb"   -> IsE(w, c[2])
    [] c[1] = "push" -> IsE(w, c[2])
    [] c[1] = "rmE"  -> IsE(w, c[2])
    [] c[1] = "rmC"  -> IsC(w, c[2])
    [] c[1] = "rmG"  -> c[2] \in LiveG(w)
    [] c[1] \in {"addG", "cfg", "step"} -> TRUE

\* The world after the call.
After(w, c) ==
  IF ~Can(w, c) THEN w
  ELSE CASE c[1] = "addE" -> AddEntity(w, EntityAt(c, 2))
    [] c[1] = "updE" -> UpdateEntity(w, c[2], EntityAt(c, 3), Differs(w.es[c[2]], EntityAt(c, 3)))
    [] c[1] = "addC" -> AddCollider(w, c[2], ColliderAt(c, 2))
    [] c[1] = "updC" -> UpdateCollider(w, c[2], c[3], ColliderAt(c, 3))
    [] c[1] = "link" -> Link(w, c[2], c[3])
    [] c[1] = "wb"   -> w
    \* reads the entity and writes it back with these velocities
    [] c[1] = "push" -> LET e == w.es[c[2]]
                            v == Q3(c, 3)
                            a == Q3(c, 6)
                            diff == Eps \prec VLen(e.v \ominus v) \/ Eps \prec VLen(e.w \ominus a)
                            w1 == [w EXCEPT !.es[c[2]] = [@ EXCEPT !.v = v, !.w = a]]
                        IN IF diff THEN WakeUp(w1, c[2]) ELSE w1
    [] c[1] = "rmE"  -> RemoveEntity(w, c[2])
    [] c[1] = "rmC"  -> RemoveCollider(w, c[2])
    [] c[1] = "addG" -> AddGenerator(w, "G", Q3(c, 2))
    [] c[1] = "rmG"  -> RemoveGenerator(w, c[2])
    [] c[1] = "cfg"  -> [w EXCEPT !.imax = c[2], !.eth = Rat(c[3], 65536), !.sth = Q(c[4])]
    [] c[1] = "step" -> StepOf(w, Q(c[2])).w

RECURSIVE AfterAll(_, _)
AfterAll(w, cs) == IF cs = <<>> THEN w ELSE AfterAll(TLCEval(After(w, cs[1])), Tail(cs))
====

---- MODULE Contact ----
(***************************************************************************)
(* When and where two moving colliders touch.                              *)
(*                                                                         *)
(* Within a step everything is taken to move linearly (the library says so *)
(* in its documentation): the center of a sphere moves on a straight line  *)
(* from its place in the start pose to its place in the end pose, and so   *)
(* does the point a plane or a mesh is placed by; a box is the frame its   *)
(* partner moves in.  Time t runs from 0 to 1 over that motion.            *)
(*                                                                         *)
(* Contact is described per feature.  A feature is a record                *)
(*   k   "pt" point, "seg" segment, "face" polygon, "half" half space,     *)
(*       "low" (the lowest points of a mesh over a plane)                  *)
(*   c,m sphere center at t=0 and its movement relative to the feature     *)
(*   R   distance at which they touch                                      *)
(*   g   the geometry of the feature at t=0                                *)
(*   d   movement of the frame everything above is relative to             *)
(*   r1  radius of the sphere; fr  the frame ("w" world, or box poses)     *)
(* This gives a definition of contact that is independent of how the       *)
(* library searches for it, and in which touching at distance R-s and R+s  *)
(* brackets what rounding can decide either way.                           *)
(***************************************************************************)
EXTENDS Bodies

None == RInf                \* "no time"
InRange(t) == R0 \preceq t /\ t \preceq R1

\* First t in [0,1] with |c + m*t| <= R.
FirstWithin(c, m, R) ==
  LET cc == VDot(c, c) -- R ** R
      b  == VDot(c, m)
      a  == VDot(m, m)
      det == b ** b -- a ** cc
  IN IF R \prec R0 THEN None
     ELSE IF cc \preceq R0 THEN R0
     ELSE IF R0 \preceq b \/ det \prec R0 THEN None
     ELSE LET t == cc // (RSqrt(det) -- b) IN IF t \preceq R1 THEN t ELSE None

Across(v, u) == v \ominus u \odot VDot(v, u)     \* part of v orthogonal to the unit vector u

FaceNormal(cs) == VUnit(VCross(cs[2] \ominus cs[1], cs[3] \ominus cs[1]))

\* Is x within the polygon cs (normal n), or at most s outside of one of its sides?
InPolygon(x, cs, n, s) ==
  \A i \in DOMAIN cs :
    LET a == cs[i]
        b == cs[IF i = Len(cs) THEN 1 ELSE i + 1]
    IN RNeg(s) \preceq VDot(VCross(n, VUnit(b \ominus a)), x \ominus a)

At(f, t) == f.c \oplus f.m \odot t     \* the sphere center, relative to the feature

\* Nearest point of the feature (its line or plane extended) to x.
Nearest(f, x) ==
  CASE f.k = "pt"   -> f.g[1]
    [] f.k = "seg"  -> LET u == VUnit(f.g[2] \ominus f.g[1])
                       IN f.g[1] \oplus u \odot VDot(x \ominus f.g[1], u)
    [] f.k \in {"face", "vf"} -> LET n == f.n IN x \ominus n \odot VDot(x \ominus f.g[1], n)
    [] f.k = "half" -> LET n == f.n IN x \ominus n \odot VDot(x \ominus f.g[1], n)
    [] f.k = "low"  -> f.g[1]

\* Does the nearest point belong to the feature (up to s)?
Within(f, x, s) ==
  CASE f.k = "pt"   -> TRUE
    [] f.k = "seg"  -> LET e == f.g[2] \ominus f.g[1]
                           u == VUnit(e)
                           h == VDot(x \ominus f.g[1], u)
                       IN RNeg(s) \preceq h /\ h \preceq VLen(e) ++ s
    [] f.k \in {"face", "vf"} -> InPolygon(x, f.g, f.n, s)
    [] f.k = "half" -> TRUE
    [] f.k = "low"  -> TRUE

\* Signed distance between sphere center and feature at t.
Distance(f, t) ==
  LET x == At(f, t)
  IN IF f.k = "half" THEN VDot(x \ominus f.g[1], f.n)
     ELSE IF f.k = "low" THEN f.h0 ++ (f.h1 -- f.h0) ** t
     ELSE VLen(x \ominus Nearest(f, x))

\* First time the distance is at most f.R + s.
FirstTouch(f, s) ==
  LET R == f.R ++ s IN
  CASE f.k = "pt" -> FirstWithin(f.c \ominus f.g[1], f.m, R)
    [] f.k = "seg" -> LET u == VUnit(f.g[2] \ominus f.g[1])
                          t == FirstWithin(Across(f.c \ominus f.g[1], u), Across(f.m, u), R)
                      IN IF RFinite(t) /\ Within(f, At(f, t), s) THEN t ELSE None
    [] f.k = "face" -> LET h == VDot(f.c \ominus f.g[1], f.n)
                           v == VDot(f.m, f.n)
                           t == IF RAbs(h) \preceq R THEN R0
                                ELSE LET q == (RAbs(h) -- R) // (IF R0 \prec h THEN RNeg(v) ELSE v)
                                     IN IF R0 \preceq q /\ q \preceq R1 THEN q ELSE None
                       IN IF RFinite(t) /\ Within(f, At(f, t), s) THEN t ELSE None
    [] f.k = "half" -> LET h == VDot(f.c \ominus f.g[1], f.n) -- R
                           v == VDot(f.m, f.n)
                           q == h // RNeg(v)
                       IN IF h \preceq R0 THEN R0
                          ELSE IF v \prec R0 /\ q \preceq R1 THEN q ELSE None
    [] f.k = "low" -> LET q == (f.h0 -- s) // (f.h0 -- f.h1)
                      IN IF f.h0 \preceq s THEN R0
                         ELSE IF f.h1 \prec s /\ q \preceq R1 THEN q ELSE None
    \* (s < 0: it must come from as far as that off the plane and get as far through it)
    [] f.k = "vf" -> LET h == VDot(f.c \ominus f.g[1], f.n)
                         v == VDot(f.m, f.n)
                         z == RNeg(h) // v
                         q == z -- s // RAbs(v)
                     IN IF RAbs(h) \preceq s THEN (IF Within(f, f.c, s) THEN R0 ELSE None)
                        ELSE IF RAbs(h) \prec RNeg(s) THEN None
                        ELSE IF R0 \preceq z /\ R0 \preceq q /\ q \preceq R1 /\ Within(f, At(f, z), s) THEN q ELSE None

\* Contact at time t: position in the world and unit normal off the sphere (or mesh for "low").
FrameOut(f, t, x, n) ==
  IF f.fr = <<>> THEN [x |-> x \oplus f.d \odot t, n |-> n]
  ELSE LET e == Between(f.fr[1], f.fr[2], t) IN [x |-> ToWorld(e, x), n |-> DirToWorld(e, n)]

ContactAt(f, t) ==
  LET x  == At(f, t)
      y  == Nearest(f, x)
      n  == CASE f.k = "half" -> VNeg(f.n)
              [] OTHER -> VUnit(y \ominus x)
      \* (two spheres that overlap share the depth by their radii)
      r  == IF f.k = "half" THEN f.r1 ELSE (VLen(y \ominus x) ** f.r1) // f.R
  IN IF f.k = "low" THEN [x |-> VLerp(f.x0, f.x1, t), n |-> VNeg(f.n)]
     ELSE IF f.k = "vf" THEN [x |-> y \oplus f.d \odot t, n |-> IF R0 \preceq VDot(f.m, f.n) THEN f.n \odot f.sg ELSE f.n \odot RNeg(f.sg)]
     ELSE FrameOut(f, t, x \oplus n \odot r, n)

----------------------------------------------------------------------------
(* The features of each pair of shapes.  a is the pose record              *)
(* [s |-> start pose, e |-> end pose] of the first one, ca its collider.   *)

PathOf(a, l) == [s |-> ToWorld(a.s, l), d |-> ToWorld(a.e, l) \ominus ToWorld(a.s, l)]

NoFrame == <<>>

SphereSphere(ca, a, cb, b) ==
  LET pa == PathOf(a, ca.x.p)
      pb == PathOf(b, cb.x.p)
  IN << [k |-> "pt", c |-> pa.s, m |-> pa.d \ominus pb.d, R |-> ca.x.r ++ cb.x.r, g |-> <<pb.s>>,
         d |-> pb.d, r1 |-> ca.x.r, fr |-> NoFrame] >>

SpherePlane(ca, a, cb, b) ==
  LET pa == PathOf(a, ca.x.p)
      pb == PathOf(b, cb.x.p)
  IN << [k |-> "half", c |-> pa.s, m |-> pa.d \ominus pb.d, R |-> ca.x.r, g |-> <<pb.s>>, n |-> cb.x.n,
         d |-> pb.d, r1 |-> ca.x.r, fr |-> NoFrame] >>

\* Distinct edges of a mesh given by its faces (sequences of points).
FacePts(f) == {f[i] : i \in DOMAIN f}
MeshPts(faces) == UNION {FacePts(faces[i]) : i \in DOMAIN faces}
FaceEdges(f) == {{f[i], f[IF i = Len(f) THEN 1 ELSE i + 1]} : i \in DOMAIN f}
MeshEdges(faces) == UNION {FaceEdges(faces[i]) : i \in DOMAIN faces}

SphereMesh(ca, a, cb, b) ==
  LET pa == PathOf(a, ca.x.p)
      pb == PathOf(b, cb.x.p)
      m  == pa.d \ominus pb.d
      W(l) == ToWorld(b.s, cb.x.p \oplus l)
      base == [k |-> "pt", c |-> pa.s, m |-> m, R |-> ca.x.r, d |-> pb.d, r1 |-> ca.x.r,
               fr |-> NoFrame, g |-> <<>>, n |-> V0]
      pts == SeqOf(MeshPts(cb.x.faces))
      eds == SeqOf(MeshEdges(cb.x.faces))
      P(l) == [base EXCEPT !.g = <<W(l)>>]
      E(s) == LET q == SeqOf(s) IN [base EXCEPT !.k = "seg", !.g = <<W(q[1]), W(q[2])>>]
      F(f) == LET cs == TLCEval([i \in DOMAIN f |-> W(f[i])])
              IN [base EXCEPT !.k = "face", !.g = cs, !.n = FaceNormal(cs)]
  IN [i \in DOMAIN pts |-> P(pts[i])] \o [i \in DOMAIN eds |-> E(eds[i])]
     \o [i \in DOMAIN cb.x.faces |-> F(cb.x.faces[i])]

\* Corners of a box, numbered 1..8 by the bits of i-1.
Corner(lo, hi, i) ==
  LET j == i - 1 IN << IF j % 2 = 0 THEN lo[1] ELSE hi[1],
                       IF (j \div 2) % 2 = 0 THEN lo[2] ELSE hi[2],
                       IF (j \div 4) % 2 = 0 THEN lo[3] ELSE hi[3] >>
BoxEdges == << <<1,2>>, <<3,4>>, <<5,6>>, <<7,8>>, <<1,3>>, <<2,4>>, <<5,7>>, <<6,8>>,
               <<1,5>>, <<2,6>>, <<3,7>>, <<4,8>> >>
BoxFaces == << <<1,3,7,5>>, <<2,4,8,6>>, <<1,2,6,5>>, <<3,4,8,7>>, <<1,2,4,3>>, <<5,6,8,7>> >>

SphereBox(ca, a, cb, b) ==
  LET s == ToLocal(b.s, ToWorld(a.s, ca.x.p))
      e == ToLocal(b.e, ToWorld(a.e, ca.x.p))
      lo == cb.x.p \oplus cb.x.lo
      hi == cb.x.p \oplus cb.x.hi
      C == TLCEval([i \in 1..8 |-> Corner(lo, hi, i)])
      base == [k |-> "pt", c |-> s, m |-> e \ominus s, R |-> ca.x.r, d |-> V0, r1 |-> ca.x.r,
               fr |-> <<b.s, b.e>>, g |-> <<>>, n |-> V0]
      F(f) == LET cs == TLCEval([i \in 1..4 |-> C[f[i]]])
              IN [base EXCEPT !.k = "face", !.g = cs, !.n = FaceNormal(cs)]
  IN [i \in 1..8 |-> [base EXCEPT !.g = <<C[i]>>]]
     \o [i \in 1..12 |-> [base EXCEPT !.k = "seg", !.g = <<C[BoxEdges[i][1]], C[BoxEdges[i][2]]>>]]
     \o [i \in 1..6 |-> F(BoxFaces[i])]

\* A mesh touches a plane when its lowest vertex does; the contact position is the middle of the
\* vertices that are (within a hundredth of the height of the mesh) the lowest ones.
MeshPlane(ca, a, cb, b) ==
  LET pb == PathOf(b, cb.x.p)
      n  == cb.x.n
      vs == SeqOf(MeshPts(ca.x.faces))
      s  == TLCEval([i \in DOMAIN vs |-> ToWorld(a.s, ca.x.p \oplus vs[i])])
      e  == TLCEval([i \in DOMAIN vs |-> ToWorld(a.e, ca.x.p \oplus vs[i])])
      hs == TLCEval([i \in DOMAIN vs |-> VDot(s[i] \ominus pb.s, n)])
      he == TLCEval([i \in DOMAIN vs |-> VDot(e[i] \ominus (pb.s \oplus pb.d), n)])
      Min(h) == MinOf(h)
      Max(h) == MaxOf(h)
      \* (of the height, or of a hundredth of the width of a flat one)
      width == MaxOf([i \in DOMAIN vs |-> VLen(vs[i] \ominus vs[1])])
      low(h, f) == {i \in DOMAIN h : h[i] -- Min(h) \preceq RMax(Max(h) -- Min(h), width ** Rat(1, 100)) ** f}
      Mid(x, I) == SumV([i \in DOMAIN SeqOf(I) |-> x[SeqOf(I)[i]]]) \odot (R1 // Num(Cardinality(I)))
  IN << [k |-> "low", c |-> V0, m |-> V0, R |-> R0, g |-> <<pb.s>>, n |-> n, d |-> pb.d, r1 |-> R0,
         fr |-> NoFrame, h0 |-> Min(hs), h1 |-> Min(he),
         x0 |-> Mid(s, low(hs, Rat(1, 100))), x1 |-> Mid(e, low(he, Rat(1, 100))),
         \* is the set of lowest vertices clear cut?
         ok |-> /\ low(hs, Rat(5, 1000)) = low(hs, Rat(2, 100)) /\ low(he, Rat(5, 1000)) = low(he, Rat(2, 100))
                /\ low(hs, Rat(1, 100)) = low(he, Rat(1, 100))] >>

\* Two meshes touch where a vertex of one (moving linearly) is in a face of the other (as it is midway if it
\* turns, moving linearly).  The library doesn't look for edges that cross, so what isn't recorded may touch
\* nevertheless; but what is recorded must.  (The normal may be either one of the face.)
VertexFaces(faces, cx, b, points, px, a, sg) ==
  LET pts == SeqOf(MeshPts(points))
      face(f) == LET s == TLCEval([i \in DOMAIN f |-> ToWorld(b.s, cx.p \oplus f[i])])
                     e == TLCEval([i \in DOMAIN f |-> ToWorld(b.e, cx.p \oplus f[i])])
                     d == (SumV(e) \ominus SumV(s)) \odot (R1 // Num(Len(f)))
                     g == TLCEval([i \in DOMAIN f |-> (s[i] \oplus e[i] \ominus d) \odot RHalf])
                 IN [d |-> d, g |-> g, n |-> FaceNormal(g)]
      fs == TLCEval([n \in DOMAIN faces |-> TLCEval(face(faces[n]))])
      one(v, f) == LET p == PathOf(a, px.p \oplus v)
                   IN [k |-> "vf", c |-> p.s, m |-> p.d \ominus f.d, R |-> R0, g |-> f.g, n |-> f.n, d |-> f.d, r1 |-> R0, fr |-> NoFrame,
                       sg |-> sg, o |-> [k \in DOMAIN pts |-> ToWorld(a.s, px.p \oplus pts[k]) \ominus p.s]]
  IN [i \in 1..(Len(pts) * Len(fs)) |-> one(pts[((i - 1) \div Len(fs)) + 1], fs[((i - 1) % Len(fs)) + 1])]
MeshMesh(ca, a, cb, b) ==
  VertexFaces(cb.x.faces, cb.x, b, ca.x.faces, ca.x, a, R1) \o VertexFaces(ca.x.faces, ca.x, a, cb.x.faces, cb.x, b, RNeg(R1))

\* All features of two colliders, with whether the roles were swapped.
Features(ca, a, cb, b) ==
  CASE ca.k = "S" /\ cb.k = "S" -> SphereSphere(ca, a, cb, b)
    [] ca.k = "S" /\ cb.k = "P" -> SpherePlane(ca, a, cb, b)
    [] ca.k = "S" /\ cb.k = "M" -> SphereMesh(ca, a, cb, b)
    [] ca.k = "S" /\ cb.k = "B" -> SphereBox(ca, a, cb, b)
    [] ca.k = "M" /\ cb.k = "P" -> MeshPlane(ca, a, cb, b)
    [] ca.k = "M" /\ cb.k = "M" -> MeshMesh(ca, a, cb, b)
    [] OTHER -> <<>>

\* Pairs of kinds that are looked at with the second one in the role of the first.
Swapped(ca, cb) == <<ca.k, cb.k>> \in {<<"P","S">>, <<"M","S">>, <<"B","S">>, <<"P","M">>}
\* Kinds that can collide at all.
Collides(ca, cb) ==
  <<ca.k, cb.k>> \in {<<"S","S">>, <<"S","P">>, <<"S","M">>, <<"S","B">>, <<"M","P">>}
====

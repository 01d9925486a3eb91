-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* What a tracing result looks like when it is drawn.  A result t has a    *)
(* size t.w, t.h, the flag t.cl (centre lines), a background colour t.bg   *)
(* or -1, and spline lists l with a colour l.c, the flags l.cw (a hole)    *)
(* and l.open, and splines l.s: <<x0,y0,x1,y1>> is a straight line,        *)
(* <<x0,y0,x1,y1,x2,y2,x3,y3>> a cubic curve, in units of 1/1000 pixel, y  *)
(* pointing up.                                                            *)
(*                                                                         *)
(* A drawing is a sequence of shapes [c |-> colour, k |-> "f" or "s" for   *)
(* filled or stroked, p |-> nodes]; a node [o |-> "M"/"L"/"C", q |->       *)
(* coordinates] moves, draws a line or a curve.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, tol) == Abs(x - y) <= tol
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Close(a[i], b[i], tol)
\* rounded division, and division cutting towards zero
RDiv(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -((-a + (b \div 2)) \div b)
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

IsLine(s) == Len(s) = 4
StartOf(s) == <<s[1], s[2]>>
EndOf(s) == <<s[Len(s) - 1], s[Len(s)]>>
First(l) == StartOf(l.s[1])

Stroked(t, l) == t.cl \/ l.open
Mode(t, l) == IF Stroked(t, l) THEN "s" ELSE "f"
\* formats without compound paths paint holes over what is below them
PaintColour(t, l) == IF l.cw /\ t.bg # -1 THEN t.bg ELSE l.c

R(c) == c \div 65536
G(c) == (c \div 256) % 256
B(c) == c % 256
Min2(a, b) == IF a < b THEN a ELSE b
Key(c) == 255 - (IF R(c) >= G(c) /\ R(c) >= B(c) THEN R(c) ELSE IF G(c) >= B(c) THEN G(c) ELSE B(c))
Cmyk(c) == <<255 - R(c) - Key(c), 255 - G(c) - Key(c), 255 - B(c) - Key(c), Key(c)>>
Rgb(c) == <<R(c), G(c), B(c)>>
\* components v of 255 written as fractions in units of 1/1000
Fractions(f, v) == Len(f) = Len(v) /\ \A i \in 1 .. Len(v) : Abs((f[i] * 255) - (v[i] * 1000)) <= 255

\* a list as a path; F maps a point to the coordinates of the format
MapAll(F(_, _), s, from) == FlattenSeq([i \in 1 .. ((Len(s) \div 2) - from) |-> F(s[(2 * (i + from)) - 1], s[2 * (i + from)])])
PathOf(l, F(_, _)) ==
  <<[o |-> "M", q |-> F(First(l)[1], First(l)[2])]>>
  \o [i \in 1 .. Len(l.s) |-> IF IsLine(l.s[i]) THEN [o |-> "L", q |-> F(l.s[i][3], l.s[i][4])]
                              ELSE [o |-> "C", q |-> MapAll(F, l.s[i], 1)]]

SamePath(p, q, tol) == /\ Len(p) = Len(q)
                       /\ \A i \in 1 .. Len(p) : p[i].o = q[i].o /\ CloseSeq(p[i].q, q[i].q, tol)

\* a point of a cubic curve at i/n, by repeated division
Lerp(a, b, i, n) == a + RDiv((b - a) * i, n)
Bez1(a, b, c, d, i, n) ==
  LET e == Lerp(a, b, i, n) f == Lerp(b, c, i, n) g == Lerp(c, d, i, n)
  IN Lerp(Lerp(e, f, i, n), Lerp(f, g, i, n), i, n)
Bez(s, i, n) == <<Bez1(s[1], s[3], s[5], s[7], i, n), Bez1(s[2], s[4], s[6], s[8], i, n)>>
\* the vertices after the start when curves are cut at i/n for i in ks, n given
Cut(l, F(_, _), ks, n) ==
  <<F(First(l)[1], First(l)[2])>>
  \o FlattenSeq([j \in 1 .. Len(l.s) |->
       IF IsLine(l.s[j]) THEN <<F(l.s[j][3], l.s[j][4])>>
       ELSE [i \in 1 .. Len(ks) |-> LET z == Bez(l.s[j], ks[i], n) IN F(z[1], z[2])]
            \o <<F(l.s[j][7], l.s[j][8])>>])
SamePts(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : CloseSeq(a[i], b[i], tol)

\* the lists from which a writer makes one compound object: neighbours of the same colour
RECURSIVE Groups(_, _)
Groups(ls, acc) ==
  IF ls = <<>> THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][1].c = Head(ls).c
       THEN Groups(Tail(ls), [acc EXCEPT ![Len(acc)] = Append(@, Head(ls))])
       ELSE Groups(Tail(ls), Append(acc, <<Head(ls)>>))
=============================================================================

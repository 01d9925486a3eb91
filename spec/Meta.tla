-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* The binary formats and the plotter language.  t.b are the bytes of the  *)
(* file (t.toks the commands of a plotter file).  Each format is decoded   *)
(* into the shapes it paints; XxxDraws compares them with the result,      *)
(* XxxFrame checks what the file says about itself.                        *)
(***************************************************************************)
EXTENDS Draw, Bytes
LOCAL INSTANCE SequencesExt

S16(v) == IF v >= 32768 THEN v - 65536 ELSE v
Whole(q, e) == Len(q) = Len(e) /\ \A i \in 1 .. Len(q) : Close(1000 * q[i], e[i], 1001)
Down(t, x, y) == <<x, (1000 * t.h) - y>>
Bump(st, e) == [st EXCEPT !.err = @ \cup {e}]

\* a node of whole coordinates agrees with one in 1/1000
SameWhole(p, q) == Len(p) = Len(q) /\ \A i \in 1 .. Len(p) : p[i].o = q[i].o /\ Whole(p[i].q, q[i].q)

\* ---------------------------------------------------------------- EMF
\* offsets of the records, as far as they can be followed
RECURSIVE EmfRecords(_, _, _)
EmfRecords(b, i, acc) == IF i >= Len(b) THEN acc
                         ELSE IF ~Has(b, i, 8) \/ U32(b, i + 4) < 8 \/ ~Has(b, i, U32(b, i + 4)) THEN Append(acc, -1)
                         ELSE EmfRecords(b, i + U32(b, i + 4), Append(acc, i))
EmfColour(b, i) == RGB(At(b, i), At(b, i + 1), At(b, i + 2))
EmfPts16(b, i, n) == [j \in 1 .. (2 * n) |-> S16(U16(b, i + (2 * (j - 1))))]
EmfNode(st, o, q) == IF st.path = <<>> \/ ~st.in THEN Bump(st, "no path") ELSE [st EXCEPT !.path = Append(@, [o |-> o, q |-> q])]
EmfPaint(st, kind) == IF st.in \/ st.path = <<>> THEN Bump(st, "no finished path")
                      ELSE IF (IF kind = "f" THEN st.brush ELSE st.pen) \notin DOMAIN st.objs THEN Bump(st, "nothing selected")
                      ELSE [st EXCEPT !.out = Append(@, [c |-> st.objs[IF kind = "f" THEN st.brush ELSE st.pen].c, k |-> kind, p |-> st.path]), !.path = <<>>]
With(f, h, v) == [x \in (DOMAIN f) \cup {h} |-> IF x = h THEN v ELSE f[x]]
Without(f, h) == [x \in (DOMAIN f) \ {h} |-> f[x]]
NullPen == -Huge
EmfStep(b, st, i) ==
  IF i < 0 THEN Bump(st, "record length")
  ELSE LET k == U32(b, i) n == U32(b, i + 4) h == IF n >= 12 THEN I32(b, i + 8) ELSE 0 IN
  CASE k \in {1, 14, 19} -> st
    [] k = 38 /\ n = 28 -> IF h \in DOMAIN st.objs THEN Bump(st, "handle in use") ELSE [st EXCEPT !.objs = With(@, h, [k |-> "pen", c |-> EmfColour(b, i + 24)]), !.top = IF h > @ THEN h ELSE @]
    [] k = 39 /\ n = 24 -> IF h \in DOMAIN st.objs THEN Bump(st, "handle in use") ELSE [st EXCEPT !.objs = With(@, h, [k |-> "brush", c |-> EmfColour(b, i + 16)]), !.top = IF h > @ THEN h ELSE @]
    [] k = 37 /\ n = 12 -> IF At(b, i + 11) = 128 THEN (IF At(b, i + 8) = 8 /\ U16(b, i + 9) = 0 THEN [st EXCEPT !.pen = NullPen] ELSE Bump(st, "stock object"))
                           ELSE IF h \notin DOMAIN st.objs THEN Bump(st, "unknown handle")
                           ELSE IF st.objs[h].k = "pen" THEN [st EXCEPT !.pen = h] ELSE [st EXCEPT !.brush = h]
    [] k = 40 /\ n = 12 -> IF h \notin DOMAIN st.objs THEN Bump(st, "unknown handle") ELSE [st EXCEPT !.objs = Without(@, h)]
    [] k = 59 /\ n = 8 -> IF st.in THEN Bump(st, "path within a path") ELSE [st EXCEPT !.in = TRUE, !.path = <<>>]
    [] k = 60 /\ n = 8 -> IF st.in THEN [st EXCEPT !.in = FALSE] ELSE Bump(st, "path not begun")
    [] k = 27 /\ n = 16 -> IF st.in /\ st.path = <<>> THEN [st EXCEPT !.path = <<[o |-> "M", q |-> <<h, I32(b, i + 12)>>]>>] ELSE Bump(st, "move")
    [] k = 54 /\ n = 16 -> EmfNode(st, "L", <<h, I32(b, i + 12)>>)
    [] k = 88 -> LET m == U32(b, i + 24) IN
                 IF n < 28 \/ m % 3 # 0 \/ n # 28 + (4 * m) THEN Bump(st, "curve record")
                 ELSE FoldLeft(LAMBDA s, j : EmfNode(s, "C", EmfPts16(b, i + 28 + (12 * (j - 1)), 3)), st, [j \in 1 .. (m \div 3) |-> j])
    [] k = 62 /\ n = 24 -> EmfPaint(st, "f")
    [] k = 64 /\ n = 24 -> EmfPaint(st, "s")
    [] OTHER -> Bump(st, "record")
EmfRun(t) == LET at == EmfRecords(t.b, 0, <<>>)
             IN [FoldLeft(LAMBDA st, i : EmfStep(t.b, st, i), [objs |-> <<>>, pen |-> 0, brush |-> 0, in |-> FALSE, path |-> <<>>, out |-> <<>>, err |-> {}, top |-> 0], at) EXCEPT !.objs = at]
EmfDraws(t) == LET r == EmfRun(t) IN
  /\ r.err = {} /\ ~r.in /\ r.path = <<>> /\ Len(r.out) = Len(t.lists)
  /\ \A i \in 1 .. Len(t.lists) : LET l == t.lists[i] IN
       /\ r.out[i].c = l.c /\ r.out[i].k = Mode(t, l)
       /\ SameWhole(r.out[i].p, PathOf(l, LAMBDA x, y : Down(t, x, y)))
Colours(t) == {t.lists[i].c : i \in 1 .. Len(t.lists)}
Count(S) == LET F[T \in SUBSET S] == IF T = {} THEN 0 ELSE 1 + F[T \ {CHOOSE x \in T : TRUE}] IN F[S]
EmfFrame(t) ==
  LET r == EmfRun(t) at == r.objs b == t.b n == Len(at) IN
  /\ r.err = {} /\ n >= 2 /\ Has(b, 0, 100)
  /\ U32(b, 0) = 1 /\ U32(b, at[n]) = 14
  /\ \A i \in 2 .. (n - 1) : U32(b, at[i]) \notin {1, 14}
  /\ [j \in 1 .. 4 |-> U32(b, 4 + (4 * j))] = <<0, 0, t.w, t.h>>
  \* the device has 1280 x 1024 pixels on 320 x 240 millimetres; the picture's size in 1/100 mm
  /\ [j \in 1 .. 4 |-> U32(b, 20 + (4 * j))] = <<0, 0, (t.w * 32000) \div 1280, (t.h * 24000) \div 1024>>
  /\ SubSeq(b, 41, 44) = <<32, 69, 77, 70>> /\ U32(b, 44) = 65536
  /\ U32(b, 48) = Len(b) /\ U32(b, 52) = n
  /\ U16(b, 56) > r.top /\ (Len(t.lists) = 0 => U16(b, 56) = 1)
  /\ U32(b, 60) * 2 + U32(b, 64) <= U32(b, 4) /\ U32(b, 64) >= 88
  /\ [j \in 1 .. 4 |-> U32(b, 68 + (4 * j))] = <<1280, 1024, 320, 240>>
  \* the description: the program, a zero, the document name, two zeros
  /\ LET at0 == U32(b, 64) m == U32(b, 60) ch(j) == U16(b, at0 + (2 * (j - 1)))
         z == CHOOSE j \in 1 .. m : ch(j) = 0 /\ \A x \in 1 .. (j - 1) : ch(x) # 0
     IN /\ \E j \in 1 .. m : ch(j) = 0
        /\ m = z + Len(t.name) + 2
        /\ \A j \in 1 .. Len(t.name) : ch(z + j) = t.name[j] % 128
        /\ ch(m) = 0 /\ ch(m - 1) = 0
  /\ \A i \in 1 .. n : U32(b, at[i] + 4) % 4 = 0
  /\ U32(b, at[n] + 4) = 20 /\ U32(b, at[n] + 16) = 20

\* ---------------------------------------------------------------- CGM
\* elements [k |-> class and number, i |-> offset of the data, n |-> length]
RECURSIVE CgmElements(_, _, _)
CgmElements(b, i, acc) ==
  IF i >= Len(b) THEN acc
  ELSE IF ~Has(b, i, 2) THEN Append(acc, [k |-> -1, i |-> i, n |-> 0])
  ELSE LET h == M16(b, i) long == h % 32 = 31 IN
       IF long /\ ~Has(b, i, 4) THEN Append(acc, [k |-> -1, i |-> i, n |-> 0])
       ELSE LET n == IF long THEN M16(b, i + 2) ELSE h % 32
                d == IF long THEN i + 4 ELSE i + 2
            IN IF ~Has(b, d, n + (n % 2)) THEN Append(acc, [k |-> -1, i |-> i, n |-> n])
               ELSE CgmElements(b, d + n + (n % 2), Append(acc, [k |-> h \div 32, i |-> d, n |-> n]))
CgmPts(b, i, n) == [j \in 1 .. (2 * n) |-> S16(M16(b, i + (2 * (j - 1))))]
Elem(class, id) == (128 * class) + id
CgmStep(b, st, e) ==
  CASE e.k = Elem(5, 4) /\ e.n = 3 /\ st.in = "" -> [st EXCEPT !.line = RGB(At(b, e.i), At(b, e.i + 1), At(b, e.i + 2))]
    [] e.k = Elem(5, 23) /\ e.n = 3 /\ st.in = "" -> [st EXCEPT !.fill = RGB(At(b, e.i), At(b, e.i + 1), At(b, e.i + 2))]
    [] e.k = Elem(5, 30) /\ e.n = 2 /\ M16(b, e.i) = 1 -> st
    [] e.k = Elem(5, 22) /\ e.n = 2 /\ M16(b, e.i) = 1 -> [st EXCEPT !.solid = TRUE]
    [] e.k = Elem(0, 15) /\ e.n = 0 /\ st.in = "" -> [st EXCEPT !.in = "s", !.segs = <<>>]
    [] e.k = Elem(0, 8) /\ e.n = 0 /\ st.in = "" /\ st.solid -> [st EXCEPT !.in = "f", !.segs = <<>>]
    [] e.k = Elem(0, 16) /\ st.in = "s" -> [st EXCEPT !.in = "", !.out = Append(@, [c |-> st.line, k |-> "s", p |-> st.segs])]
    [] e.k = Elem(0, 9) /\ st.in = "f" -> [st EXCEPT !.in = "", !.out = Append(@, [c |-> st.fill, k |-> "f", p |-> st.segs])]
    [] e.k = Elem(4, 1) /\ st.in # "" /\ e.n = 8 -> [st EXCEPT !.segs = Append(@, CgmPts(b, e.i, 2))]
    [] e.k = Elem(4, 26) /\ st.in # "" /\ e.n = 18 /\ M16(b, e.i) \in {1, 2} -> [st EXCEPT !.segs = Append(@, CgmPts(b, e.i + 2, 4))]
    [] OTHER -> Bump(st, "element")
CgmHead(es) == {i \in 1 .. Len(es) : es[i].k = Elem(0, 4)}
CgmRun(t) ==
  LET es == CgmElements(t.b, 0, <<>>)
      from == IF \E i \in CgmHead(es) : TRUE THEN CHOOSE i \in CgmHead(es) : TRUE ELSE Len(es)
      n == Len(es)
  IN [FoldLeft(LAMBDA st, e : CgmStep(t.b, st, e), [line |-> -1, fill |-> -1, solid |-> FALSE, in |-> "", segs |-> <<>>, out |-> <<>>, err |-> {}, es |-> <<>>, from |-> 0],
               IF from + 2 <= n THEN SubSeq(es, from + 1, n - 2) ELSE <<>>) EXCEPT !.es = es, !.from = from]
CgmDraws(t) == LET r == CgmRun(t) IN
  /\ r.err = {} /\ r.in = "" /\ Len(r.out) = Len(t.lists)
  /\ \A i \in 1 .. Len(t.lists) : LET l == t.lists[i] IN
       /\ r.out[i].c = PaintColour(t, l) /\ r.out[i].k = Mode(t, l)
       /\ Len(r.out[i].p) = Len(l.s)
       /\ \A j \in 1 .. Len(l.s) : Whole(r.out[i].p[j], MapAll(LAMBDA x, y : Down(t, x, y), l.s[j], 0))
\* a string: its length, or 255 and a 16-bit length, then the characters
CgmText(b, e) == IF e.n >= 3 /\ At(b, e.i) = 255 THEN [n |-> M16(b, e.i + 1) + 3, s |-> SubSeq(b, e.i + 4, e.i + e.n)]
                 ELSE [n |-> At(b, e.i) + 1, s |-> SubSeq(b, e.i + 2, e.i + e.n)]
CgmFrame(t) ==
  LET r == CgmRun(t) es == r.es n == Len(es) b == t.b
      first(k) == CHOOSE i \in 1 .. n : es[i].k = k
      has(k) == \E i \in 1 .. n : es[i].k = k
      only(k) == \E i \in 1 .. n : es[i].k = k /\ \A j \in 1 .. n : es[j].k = k => i = j
  IN /\ n >= 8 /\ \A i \in 1 .. n : es[i].k # -1
     /\ r.err = {} /\ r.in = ""
     /\ es[1].k = Elem(0, 1) /\ es[n].k = Elem(0, 2) /\ es[n - 1].k = Elem(0, 5)
     /\ \A k \in {Elem(0, 1), Elem(0, 2), Elem(0, 3), Elem(0, 4), Elem(0, 5), Elem(1, 1), Elem(1, 2), Elem(2, 6)} : only(k)
     /\ first(Elem(0, 3)) < r.from /\ first(Elem(2, 6)) < r.from /\ first(Elem(1, 1)) < first(Elem(0, 3))
     /\ \A k \in {Elem(0, 1), Elem(0, 3), Elem(1, 2)} : CgmText(b, es[first(k)]).n = es[first(k)].n
     /\ CgmText(b, es[1]).s = t.name
     /\ LET v == es[first(Elem(2, 6))] IN v.n = 8 /\ CgmPts(b, v.i, 2) = <<0, t.h, t.w, 0>>

\* --------------------------------------------------------------- DR2D
Tag(b, i) == SubSeq(b, i + 1, i + 4)
RECURSIVE Chunks(_, _, _)
Chunks(b, i, acc) == IF i >= Len(b) THEN acc
                     ELSE IF ~Has(b, i, 8) \/ M32(b, i + 4) < 0 \/ ~Has(b, i + 8, M32(b, i + 4) + (M32(b, i + 4) % 2)) THEN Append(acc, [k |-> <<0, 0, 0, 0>>, i |-> i, n |-> 0])
                     ELSE Chunks(b, i + 8 + M32(b, i + 4) + (M32(b, i + 4) % 2), Append(acc, [k |-> Tag(b, i), i |-> i + 8, n |-> M32(b, i + 4)]))
DRHD == <<68, 82, 72, 68>>
PPRF == <<80, 80, 82, 70>>
LAYR == <<76, 65, 89, 82>>
DASH == <<68, 65, 83, 72>>
CMAP == <<67, 77, 65, 80>>
BBOX == <<66, 66, 79, 88>>
ATTR == <<65, 84, 84, 82>>
CPLY == <<67, 80, 76, 89>>
OPLY == <<79, 80, 76, 89>>
RECURSIVE Halve(_, _)
Halve(m, k) == IF k <= 0 THEN m ELSE IF k > 30 THEN 0 ELSE Halve(m \div 2, k - 1)
RECURSIVE Twice(_, _)
Twice(m, k) == IF k <= 0 THEN m ELSE IF k > 6 THEN Huge ELSE Twice(m * 2, k - 1)
\* a 4-byte floating-point number in units of 1/65536
Flt(b, i) == LET e == ((At(b, i) % 128) * 2) + (At(b, i + 1) \div 128)
                 m == 8388608 + ((At(b, i + 1) % 128) * 65536) + M16(b, i + 2)
                 v == IF e = 0 THEN 0 ELSE IF e <= 134 THEN Halve(m, 134 - e) ELSE Twice(m, e - 134)
             IN IF At(b, i) >= 128 THEN -v ELSE v
\* pixels (in 1/1000) on paper: 11.693 inches wide or 8.2681 high
Inches(t, v) == LET a == IF t.w < t.h THEN RDiv(v * 11693, t.w) ELSE RDiv(v * 8268, t.h)
                    p == IF a < 0 THEN -a ELSE a
                    u == ((p \div 62500) * 4096) + (((p % 62500) * 4096) \div 62500)
                IN IF a < 0 THEN -u ELSE u
InchTol(t) == 72 + ((IF t.w < t.h THEN 766000 \div t.w ELSE 541900 \div t.h) \div 300)
\* the entries of a polygon: points and marks
Mark(b, i) == M16(b, i) = 65535 /\ M16(b, i + 2) = 65535
RECURSIVE PlyRun(_, _, _, _, _)
\* k-th of n entries at offset i; pen position; splines so far ("bad" for what cannot be)
PlyRun(b, i, n, at, acc) ==
  IF n = 0 THEN acc
  ELSE IF Mark(b, i)
       THEN IF n < 5 \/ M32(b, i + 4) # 1 \/ \E j \in 1 .. 4 : Mark(b, i + (8 * j)) THEN Append(acc, <<>>)
            ELSE LET q == [j \in 1 .. 8 |-> Flt(b, i + 8 + (4 * (j - 1)))]
                 IN PlyRun(b, i + 40, n - 5, <<q[7], q[8]>>, Append(acc, q))
       ELSE LET q == <<Flt(b, i), Flt(b, i + 4)>>
            IN IF at = <<>> THEN PlyRun(b, i + 8, n - 1, q, acc) ELSE PlyRun(b, i + 8, n - 1, q, Append(acc, at \o q))
DrStep(b, st, c) ==
  CASE c.k = BBOX /\ c.n = 16 -> [st EXCEPT !.box = [j \in 1 .. 4 |-> Flt(b, c.i + (4 * (j - 1)))]]
    [] c.k = ATTR /\ c.n = 14 -> [st EXCEPT !.attr = [fill |-> At(b, c.i), fc |-> M16(b, c.i + 4), ec |-> M16(b, c.i + 6), dash |-> At(b, c.i + 2), w |-> Flt(b, c.i + 10)]]
    [] c.k \in {CPLY, OPLY} /\ c.n >= 10 /\ c.n = 2 + (8 * M16(b, c.i)) /\ st.box # <<>> /\ st.attr # <<>> ->
         [st EXCEPT !.out = Append(@, [closed |-> c.k = CPLY, a |-> st.attr, box |-> st.box, s |-> PlyRun(b, c.i + 2, M16(b, c.i), <<>>, <<>>)]), !.box = <<>>, !.attr = <<>>]
    [] OTHER -> Bump(st, "chunk")
DrShaped(t) == Has(t.b, 0, 12) /\ Tag(t.b, 0) = <<70, 79, 82, 77>> /\ Tag(t.b, 8) = <<68, 82, 50, 68>>
DrChunks(t) == Chunks(t.b, 12, <<>>)
DrObjects(cs) == SelectSeq(cs, LAMBDA c : c.k \notin {DRHD, PPRF, LAYR, DASH, CMAP})
DrRun(t) == FoldLeft(LAMBDA st, c : DrStep(t.b, st, c), [box |-> <<>>, attr |-> <<>>, out |-> <<>>, err |-> {}], DrObjects(DrChunks(t)))
DrMap(t) == SelectSeq(DrChunks(t), LAMBDA c : c.k = CMAP)
\* entry i of the colour map at chunk m
DrColour(t, m, i) == IF (3 * i) + 3 > m.n THEN -1 ELSE RGB(At(t.b, m.i + (3 * i)), At(t.b, m.i + (3 * i) + 1), At(t.b, m.i + (3 * i) + 2))
DrPaper(t, s) == MapAll(LAMBDA x, y : <<Inches(t, x), Inches(t, (1000 * t.h) - y)>>, s, 0)
DrDraws(t) ==
  /\ DrShaped(t) /\ Len(DrMap(t)) = 1
  /\ LET r == DrRun(t) m == DrMap(t)[1] IN
     /\ r.err = {} /\ Len(r.out) = Len(t.lists)
     /\ \A i \in 1 .. Len(t.lists) : LET l == t.lists[i] o == r.out[i] IN
          /\ o.closed = ~Stroked(t, l) /\ o.a.fill = (IF Stroked(t, l) THEN 0 ELSE 1)
          /\ DrColour(t, m, o.a.fc) = PaintColour(t, l) /\ DrColour(t, m, o.a.ec) = PaintColour(t, l)
          /\ Len(o.s) = Len(l.s)
          /\ \A j \in 1 .. Len(l.s) : CloseSeq(o.s[j], DrPaper(t, l.s[j]), InchTol(t))
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
DrFrame(t) ==
  LET b == t.b cs == DrChunks(t) only(k) == Len(SelectSeq(cs, LAMBDA c : c.k = k)) = 1
      hd == SelectSeq(cs, LAMBDA c : c.k = DRHD)[1]
  IN /\ DrShaped(t) /\ M32(b, 4) = Len(b) - 8
     /\ \A i \in 1 .. Len(cs) : cs[i].k # <<0, 0, 0, 0>>
     /\ \A k \in {DRHD, PPRF, LAYR, DASH, CMAP} : only(k)
     /\ hd.n = 16 /\ CloseSeq([j \in 1 .. 4 |-> Flt(b, hd.i + (4 * (j - 1)))], <<0, 0, Inches(t, 1000 * t.w), Inches(t, 1000 * t.h)>>, InchTol(t))
     /\ LET r == DrRun(t) IN
        /\ r.err = {} /\ r.box = <<>> /\ r.attr = <<>>
        \* the boxes are those of the ends of the splines
        /\ \A i \in 1 .. Len(r.out) :
             LET s == r.out[i].s
                 xs == {s[j][1] : j \in 1 .. Len(s)} \cup {s[j][Len(s[j]) - 1] : j \in 1 .. Len(s)}
                 ys == {s[j][2] : j \in 1 .. Len(s)} \cup {s[j][Len(s[j])] : j \in 1 .. Len(s)}
             IN CloseSeq(r.out[i].box, <<SetMin(xs), SetMin(ys), SetMax(xs), SetMax(ys)>>, 8)
        /\ \A i \in 1 .. Len(r.out) : CloseSeq(<<r.out[i].a.w>>, <<65536 \div t.dpi>>, 64)
        /\ LET m == SelectSeq(cs, LAMBDA c : c.k = CMAP)[1] col == [i \in 0 .. ((m.n \div 3) - 1) |-> DrColour(t, m, i)]
           IN m.n % 3 = 0 /\ \A i, j \in DOMAIN col : i # j => col[i] # col[j]

\* --------------------------------------------------------------- HPGL
Pens == <<0, 16711680, 65280, 16776960, 255, 12058752, 65535, 16745472>>
PltFar(c, d) == ((R(c) - R(d)) * (R(c) - R(d))) + ((G(c) - G(d)) * (G(c) - G(d))) + ((B(c) - B(d)) * (B(c) - B(d)))
PltStep(st, k) ==
  CASE k.o \in {"IN", "IP", "SC"} /\ st.out = <<>> -> st
    [] k.o = "SP" /\ Len(k.a) = 1 -> [st EXCEPT !.pen = k.a[1]]
    [] k.o = "PU" /\ Len(k.a) = 2 -> [st EXCEPT !.out = Append(@, [pen |-> st.pen, p |-> <<k.a>>])]
    [] k.o = "PU" /\ Len(k.a) = 0 -> st
    [] k.o = "PD" /\ Len(k.a) = 2 /\ st.out # <<>> /\ st.pen = st.out[Len(st.out)].pen -> [st EXCEPT !.out[Len(st.out)].p = Append(@, k.a)]
    [] OTHER -> Bump(st, "command")
\* moves that nothing is drawn after leave no trace
PltRun(t) == LET r == FoldLeft(PltStep, [pen |-> 0, out |-> <<>>, err |-> {}], t.toks)
             IN [r EXCEPT !.out = SelectSeq(@, LAMBDA o : Len(o.p) > 1)]
PltDraws(t) == LET r == PltRun(t) IN
  /\ r.err = {} /\ Len(r.out) = Len(t.lists)
  /\ \A i \in 1 .. Len(t.lists) : LET l == t.lists[i] o == r.out[i] e == Cut(l, LAMBDA x, y : <<x, y>>, <<1, 2, 3, 4, 5, 6>>, 7) IN
       /\ o.pen \in 1 .. 8 /\ \A j \in 1 .. 8 : PltFar(l.c, Pens[o.pen]) <= PltFar(l.c, Pens[j])
       /\ Len(o.p) = Len(e) /\ \A j \in 1 .. Len(e) : Whole(o.p[j], e[j])
PltFrame(t) ==
  LET n == Len(t.toks) ips == SelectSeq(t.toks, LAMBDA k : k.o = "IP") scs == SelectSeq(t.toks, LAMBDA k : k.o = "SC") IN
  /\ n >= 3 /\ t.toks[1].o = "IN" /\ PltRun(t).err = {}
  /\ Len(ips) = 1 /\ Len(scs) = 1
  /\ scs[1].a = <<0, t.w, 0, t.h>>
  \* 1016 plotter units are an inch of 120 pixels
  /\ Len(ips[1].a) = 4 /\ CloseSeq(ips[1].a, <<0, 0, (t.w * 1016) \div 120, (t.h * 1016) \div 120>>, 1)

\* --------------------------------------------------------------- ILDA
ILDA == <<73, 76, 68, 65>>
Side(t) == IF t.w > t.h THEN t.w ELSE t.h
Clip16(v) == IF v > 32767 THEN 32767 ELSE IF v < -32768 THEN -32768 ELSE v
Laser(t, v, size) == RDiv(((2 * v) - (1000 * size)) * 13107, 400 * Side(t))
\* offsets: true-colour block, then one frame, then the empty frame that ends the file
IldN(t) == M24(t.b, 13)
IldFrameAt(t) == 16 + (3 * IldN(t))
IldPointsAt(t) == IldFrameAt(t) + 32
IldEndAt(t) == IldPointsAt(t) + (6 * IldN(t))
IldFrame(t) == LET b == t.b IN
  /\ Has(b, 0, 16) /\ Tag(b, 0) = ILDA /\ M32(b, 4) = 3
  /\ At(b, 12) = 0 /\ M32(b, 8) = (3 * IldN(t)) + 4
  /\ IldN(t) > 0 /\ Has(b, 0, IldEndAt(t))
  /\ Tag(b, IldFrameAt(t)) = ILDA /\ M32(b, IldFrameAt(t) + 4) = 1
  /\ M16(b, IldFrameAt(t) + 24) = IldN(t) /\ M16(b, IldFrameAt(t) + 26) = 0 /\ M16(b, IldFrameAt(t) + 28) = 1
  /\ Len(b) = IldEndAt(t) + 32
  /\ Tag(b, IldEndAt(t)) = ILDA /\ M32(b, IldEndAt(t) + 4) = 1 /\ M16(b, IldEndAt(t) + 24) = 0
  \* the last point of the frame is marked, no other
  /\ \A i \in 1 .. IldN(t) : (At(b, IldPointsAt(t) + (6 * (i - 1)) + 4) >= 128) = (i = IldN(t))
IldPoint(t, i) == LET b == t.b p == IldPointsAt(t) + (6 * (i - 1)) c == 16 + (3 * (i - 1)) IN
                  [q |-> <<S16(M16(b, p)), S16(M16(b, p + 2))>>, lit |-> (At(b, p + 4) \div 64) % 2 = 0, c |-> RGB(At(b, c), At(b, c + 1), At(b, c + 2)), x |-> At(b, p + 5)]
\* the lit points with neighbours at the same place joined; new: the beam was dark before
IldLit(t) ==
  FoldLeft(LAMBDA st, i :
             LET p == IldPoint(t, i) n == Len(st.ps) IN
             IF ~p.lit THEN [st EXCEPT !.dark = TRUE]
             ELSE IF n > 0 /\ CloseSeq(st.ps[n].q, p.q, IF st.dark THEN 2 ELSE 0) /\ st.ps[n].c = p.c THEN [st EXCEPT !.dark = FALSE]
             ELSE [ps |-> Append(st.ps, [q |-> p.q, c |-> p.c, x |-> p.x, new |-> st.dark]), dark |-> FALSE],
           [ps |-> <<>>, dark |-> TRUE], [i \in 1 .. IldN(t) |-> i]).ps
IldTol(t) == 8 + (66 \div Side(t))
IldNear(t, ps, i, z) == i \in 1 .. Len(ps) /\ CloseSeq(ps[i].q, <<Clip16(z[1]), Clip16(z[2])>>, IldTol(t))
\* the result in the coordinates of the laser: -32768 .. 32767 over the longer side
IldLists(t) == [i \in 1 .. Len(t.lists) |-> [t.lists[i] EXCEPT !.s = [j \in 1 .. Len(@) |-> MapAll(LAMBDA x, y : <<Laser(t, x, t.w), Laser(t, y, t.h)>>, @[j], 0)]]]
IldStraight(s, k, n) == <<Lerp(s[1], s[3], k, n), Lerp(s[2], s[4], k, n)>>
IldOn(s, k, n) == IF IsLine(s) THEN IldStraight(s, k, n) ELSE Bez(s, k, n)
\* m steps along s show as n points where the curve turns so slowly that steps fall together
IldSlow(t, ps, i, s, n, m) ==
  n \in FoldLeft(LAMBDA at, k : {a \in at : IldNear(t, ps, i + a, IldOn(s, k, m))}
                               \cup {a \in {x + 1 : x \in at} : a <= n /\ ~ps[i + a].new /\ ps[i + a].c = ps[i].c /\ IldNear(t, ps, i + a, IldOn(s, k, m)) /\ CloseSeq(ps[i + a].q, ps[i + a - 1].q, 5000)},
               {0}, [k \in 1 .. m |-> k])
RECURSIVE IldList(_, _, _, _, _)
IldList(t, ps, i, l, j) ==
  IF j > Len(l.s) THEN i
  ELSE LET s == l.s[j]
           ns == {n \in 1 .. Min2(3000, Len(ps) - i) : /\ IldNear(t, ps, i + n, EndOf(s))
                                   /\ \A k \in 1 .. n : /\ ~ps[i + k].new /\ ps[i + k].c = l.c /\ IldNear(t, ps, i + k, IldOn(s, k, n))
                                                        /\ CloseSeq(ps[i + k].q, ps[i + k - 1].q, 5000)}
           slow == IF ns # {} THEN {} ELSE {n \in 1 .. Min2(3000, Len(ps) - i) : IldNear(t, ps, i + n, EndOf(s)) /\ \E m \in 1 .. 8 : IldSlow(t, ps, i, s, n, n + m)}
       IN IF ns # {} THEN IldList(t, ps, i + SetMin(ns), l, j + 1)
          ELSE IF slow # {} THEN IldList(t, ps, i + SetMin(slow), l, j + 1)
          ELSE IF IldNear(t, ps, i, EndOf(s)) /\ \A k \in 1 .. 4 : IldNear(t, ps, i, IldOn(s, k, 5)) THEN IldList(t, ps, i, l, j + 1)
          ELSE 0
\* black is dark
IldDraws(t) ==
  /\ IldFrame(t)
  /\ LET ps == IldLit(t)
         ls == SelectSeq(IldLists(t), LAMBDA l : l.c # 0)
         r == FoldLeft(LAMBDA st, l :
                IF ~st.ok THEN st
                ELSE LET goes == st.i > 0 /\ IldNear(t, ps, st.i, First(l)) /\ ps[st.i].c = l.c
                         same == st.i + 1 <= Len(ps) /\ IldNear(t, ps, st.i + 1, First(l)) /\ ps[st.i + 1].c = l.c
                                 /\ (ps[st.i + 1].new \/ (st.i > 0 /\ CloseSeq(ps[st.i].q, ps[st.i + 1].q, 1)))
                         from == IF same THEN st.i + 1 ELSE st.i
                         end == IF goes \/ same THEN IldList(t, ps, from, l, 1) ELSE 0
                     IN IF end = 0 THEN [st EXCEPT !.ok = FALSE] ELSE [i |-> end, ok |-> \A k \in from .. end : ps[k].c = l.c],
              [i |-> 0, ok |-> TRUE], ls)
     IN r.ok /\ r.i = Len(ps)
\* colour numbers of the standard palette
IldIndexed(t) == \A i \in 1 .. IldN(t) : LET p == IldPoint(t, i) IN
  p.lit => \A k \in 2 .. 8 : p.c = <<0, 16777215, 16711680, 16776960, 65280, 65535, 255, 16711935>>[k] => p.x \in {k - 1, 74, 85, 96, 107, 118, 129, 231}
=============================================================================

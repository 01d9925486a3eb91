--------------------------------- MODULE Pen --------------------------------
(***************************************************************************)
(* The text formats.  A file is a sequence of tokens [o |-> operator, a |->*)
(* numbers in units of 1/1000, s |-> text, p |-> offset].  For every       *)
(* format a pen machine runs over the tokens and leaves the shapes it      *)
(* painted; XxxDraws says they are those of the result, XxxFrame that      *)
(* everything the file states about itself is true.                        *)
(***************************************************************************)
EXTENDS Draw
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Pen0 == [subs |-> <<>>, fc |-> <<>>, sc |-> <<>>, out |-> <<>>, err |-> {}, comp |-> FALSE, on |-> TRUE, closed |-> {}]
Err(st, e) == [st EXCEPT !.err = @ \cup {e}]
MoveTo(st, q) == IF Len(q) = 2 THEN [st EXCEPT !.subs = Append(@, <<[o |-> "M", q |-> q]>>)] ELSE Err(st, "operands")
Grow(st, o, q, n) == IF Len(q) # n THEN Err(st, "operands")
                     ELSE IF st.subs = <<>> THEN Err(st, "no current point")
                     ELSE [st EXCEPT !.subs[Len(st.subs)] = Append(@, [o |-> o, q |-> q])]
Paint(st, c, k) == [st EXCEPT !.out = @ \o [i \in 1 .. Len(st.subs) |-> [c |-> c, k |-> k, p |-> st.subs[i]]], !.subs = <<>>]
\* the current path is joined to its start; a path is named by its place in the file
Join(st) == [st EXCEPT !.closed = @ \cup {Len(st.out) + Len(st.subs)}]
\* joining the ends of a stroked path draws one line more than the list has
CloseAddsNothing(t, r) == \A i \in r.closed : i <= Len(t.lists) => ~(Stroked(t, t.lists[i]) /\ t.lists[i].open)
Both(st, c) == [st EXCEPT !.fc = c, !.sc = c]

Is(k, o, n) == k.o = o /\ Len(k.a) = n
Comment(toks, key) == SelectSeq(toks, LAMBDA k : k.o = "%" /\ k.s = key)
Only(toks, key, args) == LET c == Comment(toks, key) IN Len(c) = 1 /\ c[1].a = args
Index(toks, key) == CHOOSE i \in 0 .. Len(toks) : IF \E j \in 1 .. Len(toks) : toks[j].o = "%" /\ toks[j].s = key
                                                 THEN i > 0 /\ toks[i].o = "%" /\ toks[i].s = key
                                                      /\ \A j \in 1 .. (i - 1) : ~(toks[j].o = "%" /\ toks[j].s = key)
                                                 ELSE i = 0
Ascending(s) == \A i \in 1 .. Len(s) : s[i] > 0 /\ (i > 1 => s[i - 1] < s[i])
Box(t) == <<0, 0, 1000 * t.w, 1000 * t.h>>

\* ---- what a painted sequence has to be: the lists one by one
Matches(t, out, F(_, _), tol, ColourOk(_, _)) ==
  /\ Len(out) = Len(t.lists)
  /\ \A i \in 1 .. Len(out) :
       /\ out[i].k = Mode(t, t.lists[i])
       /\ ColourOk(out[i].c, t.lists[i].c)
       /\ SamePath(out[i].p, PathOf(t.lists[i], F), tol)
Id(x, y) == <<x, y>>
CmykOk(f, c) == Fractions(f, Cmyk(c))
RgbOk(f, c) == Fractions(f, Rgb(c))

\* ---------------------------------------------------------------- SVG
SvgStep(st, k) ==
  CASE k.o = "path" /\ k.s = "" /\ Len(k.a) = 2 /\ st.subs = <<>> ->
         IF k.a[1] >= 0 /\ k.a[2] = -1 THEN [st EXCEPT !.fc = <<k.a[1]>>, !.sc = <<>>]
         ELSE IF k.a[1] = -1 /\ k.a[2] >= 0 THEN [st EXCEPT !.sc = <<k.a[2]>>, !.fc = <<>>]
         ELSE Err(st, "style")
    [] k.o = "M" -> MoveTo(st, k.a)
    [] k.o = "L" -> Grow(st, "L", k.a, 2)
    [] k.o = "C" -> Grow(st, "C", k.a, 6)
    [] k.o = "z" /\ st.subs # <<>> -> Join(st)
    [] k.o = "endpath" -> IF st.subs = <<>> THEN Err(st, "empty path")
                          ELSE IF st.fc # <<>> THEN Paint(st, st.fc, "f") ELSE Paint(st, st.sc, "s")
    [] k.o \in {"svg", "endsvg"} -> st
    [] OTHER -> Err(st, "token")
SvgRun(t) == FoldLeft(SvgStep, Pen0, t.toks)
SvgDraws(t) == LET r == SvgRun(t)
                   Flip(x, y) == <<x, (1000 * t.h) - y>>
                   Same(f, c) == f = <<c>>
               IN r.err = {} /\ r.subs = <<>> /\ Matches(t, r.out, Flip, 1, Same) /\ CloseAddsNothing(t, r)
SvgFrame(t) == LET n == Len(t.toks) IN
  /\ n >= 2
  /\ Is(t.toks[1], "svg", 2) /\ t.toks[1].a = <<1000 * t.w, 1000 * t.h>> /\ t.toks[1].s = "http://www.w3.org/2000/svg"
  /\ t.toks[n].o = "endsvg"
  /\ \A i \in 2 .. (n - 1) : t.toks[i].o \notin {"svg", "endsvg", "?"}

\* ------------------------------------------------- EPS and Illustrator
\* the operators are what the prologue defines them to be
EpsDefs == {"bd = { bind def } bind def", "incompound = false def", "m = { moveto } bd", "l = { lineto } bd", "c = { curveto } bd",
            "F = { incompound not {fill} if } bd", "f = { closepath F } bd", "S = { stroke } bd", "*u = { /incompound true def } bd",
            "*U = { /incompound false def f} bd", "k = { setcmykcolor } bd", "K = { k } bd"}
EpsStep(st, k) ==
  CASE k.o = "%" -> st
    [] k.o = "def" -> IF k.s \in EpsDefs THEN st ELSE Err(st, "definition")
    [] k.o = "m" -> MoveTo(st, k.a)
    [] k.o = "l" -> Grow(st, "L", k.a, 2)
    [] k.o = "c" -> Grow(st, "C", k.a, 6)
    [] k.o \in {"k", "K"} -> IF st.subs = <<>> /\ ~st.comp THEN Both(st, k.a) ELSE Err(st, "colour within a path")
    [] Is(k, "*u", 0) -> IF st.comp THEN Err(st, "nested compound") ELSE [st EXCEPT !.comp = TRUE]
    [] Is(k, "f", 0) -> IF st.comp THEN st ELSE Paint(st, st.fc, "f")
    [] Is(k, "S", 0) -> Paint(st, st.sc, "s")
    [] Is(k, "*U", 0) -> IF st.comp THEN [Paint(st, st.fc, "f") EXCEPT !.comp = FALSE] ELSE Err(st, "compound not begun")
    [] OTHER -> Err(st, "token")
EpsRun(t) == FoldLeft(EpsStep, Pen0, t.toks)
EpsDraws(t) == LET r == EpsRun(t) IN
  /\ r.err = {} /\ r.subs = <<>> /\ ~r.comp
  /\ {t.toks[i].s : i \in {j \in 1 .. Len(t.toks) : t.toks[j].o = "def"}} = EpsDefs
  /\ Matches(t, r.out, Id, 1, CmykOk)
EpsFrame(t) == LET n == Len(t.toks) r == EpsRun(t) IN
  /\ n >= 8
  /\ t.toks[1].o = "%" /\ t.toks[1].s = "%!PS-Adobe-3.0"
  /\ Only(t.toks, "%%BoundingBox:", Box(t))
  /\ Ascending(<<Index(t.toks, "%%BoundingBox:"), Index(t.toks, "%%EndComments"), Index(t.toks, "%%BeginProlog"),
                 Index(t.toks, "%%EndProlog"), Index(t.toks, "%%BeginSetup"), Index(t.toks, "%%EndSetup"), Index(t.toks, "%%Trailer"),
                 Index(t.toks, "%%EOF")>>)
  /\ Index(t.toks, "%%EOF") = n /\ Index(t.toks, "%%Trailer") = n - 1
  /\ ~r.comp
  \* definitions only in the prologue, drawing only behind the setup
  /\ \A i \in 1 .. n : /\ t.toks[i].o = "def" => i > Index(t.toks, "%%BeginProlog") /\ i < Index(t.toks, "%%EndProlog")
                       /\ t.toks[i].o \notin {"def", "%"} => i > Index(t.toks, "%%EndSetup")

\* ---------------------------------------------------------------- P2E
P2eStep(st, k) ==
  CASE k.o \in {"%", "def"} -> st
    [] k.o \in {"backendconstraints", "setPageSize", "setlinecap", "setmiterlimit", "setlinejoin", "setdash", "setlinewidth", "[", "]"} -> st
    [] Is(k, "showpage", 0) -> [st EXCEPT !.on = FALSE]
    [] ~st.on -> Err(st, "drawing after the page")
    [] Is(k, "setcmykcolor", 4) -> IF st.subs = <<>> THEN Both(st, k.a) ELSE Err(st, "colour within a path")
    [] Is(k, "newpath", 0) -> IF st.subs = <<>> THEN st ELSE Err(st, "unpainted path dropped")
    [] k.o = "moveto" -> MoveTo(st, k.a)
    [] k.o = "lineto" -> Grow(st, "L", k.a, 2)
    [] k.o = "curveto" -> Grow(st, "C", k.a, 6)
    [] Is(k, "closepath", 0) /\ st.subs # <<>> -> Join(st)
    [] Is(k, "fill", 0) -> Paint(st, st.fc, "f")
    [] Is(k, "stroke", 0) -> Paint(st, st.sc, "s")
    [] OTHER -> Err(st, "token")
P2eRun(t) == FoldLeft(P2eStep, Pen0, t.toks)
P2eDraws(t) == LET r == P2eRun(t) IN r.err = {} /\ r.subs = <<>> /\ Matches(t, r.out, Id, 1, CmykOk) /\ CloseAddsNothing(t, r)
P2eFrame(t) == LET n == Len(t.toks)
                   bc == SelectSeq(t.toks, LAMBDA k : k.o = "backendconstraints")
                   curved == \E i \in 1 .. Len(t.lists) : \E j \in 1 .. Len(t.lists[i].s) : ~IsLine(t.lists[i].s[j])
                   bb == Comment(t.toks, "%%BoundingBox:")
                   pages == Comment(t.toks, "%%Pages:")
               IN
  /\ n >= 8
  /\ t.toks[1].o = "%" /\ t.toks[1].s = "%!PS-Adobe-3.0"
  /\ Len(bb) = 2 /\ bb[2].a = Box(t)
  /\ Len(pages) = 2 /\ pages[2].a = <<1000>>
  /\ Ascending(<<Index(t.toks, "%%EndComments"), Index(t.toks, "%%BeginProlog"), Index(t.toks, "%%EndProlog"), Index(t.toks, "%%BeginSetup"),
                 Index(t.toks, "%%EndSetup"), Index(t.toks, "%%Trailer"), Index(t.toks, "%%EOF")>>)
  /\ Index(t.toks, "%%EOF") = n
  \* 1: straight lines only
  /\ Len(bc) = 1 /\ bc[1].a = <<IF curved THEN 0 ELSE 1000, 0>>
  /\ Len(SelectSeq(t.toks, LAMBDA k : k.o = "showpage")) = 1
  \* the paths are numbered
  /\ LET nr == SelectSeq(t.toks, LAMBDA k : k.o = "%" /\ k.s = "%" /\ Len(k.a) = 1)
     IN Len(nr) = Len(Groups(t.lists, <<>>)) /\ \A i \in 1 .. Len(nr) : nr[i].a = <<1000 * i>>

\* ------------------------------------------------------- PDF and EPD
PdfStep(st, k) ==
  CASE k.o = "%" -> st
    [] Is(k, "rg", 3) -> IF st.subs = <<>> THEN [st EXCEPT !.fc = k.a] ELSE Err(st, "colour within a path")
    [] Is(k, "RG", 3) -> IF st.subs = <<>> THEN [st EXCEPT !.sc = k.a] ELSE Err(st, "colour within a path")
    [] k.o = "m" -> MoveTo(st, k.a)
    [] k.o = "l" -> Grow(st, "L", k.a, 2)
    [] k.o = "c" -> Grow(st, "C", k.a, 6)
    [] Is(k, "h", 0) -> st
    [] Is(k, "f", 0) -> IF st.subs = <<>> THEN Err(st, "nothing to paint") ELSE Paint(st, st.fc, "f")
    [] Is(k, "S", 0) -> IF st.subs = <<>> THEN Err(st, "nothing to paint") ELSE Paint(st, st.sc, "s")
    [] OTHER -> Err(st, "token")
EpdDraws(t) == LET r == FoldLeft(PdfStep, Pen0, t.toks) IN r.err = {} /\ r.subs = <<>> /\ Matches(t, r.out, Id, 1, RgbOk)
EpdFrame(t) == /\ Len(t.toks) >= 5 /\ t.toks[1].o = "%" /\ t.toks[1].s = "%EPD-1.0"
               /\ Only(t.toks, "%BBox", Box(t))
Find(t, o) == SelectSeq(t.toks, LAMBDA k : k.o = o)
PosOf(toks, o) == CHOOSE i \in 1 .. Len(toks) : toks[i].o = o
PdfBody(t) == IF Len(Find(t, "begin")) = 1 /\ Len(Find(t, "end")) = 1
              THEN SubSeq(t.toks, PosOf(t.toks, "begin") + 1, PosOf(t.toks, "end") - 1) ELSE <<[o |-> "?", a |-> <<>>, s |-> "", p |-> 0]>>
PdfDraws(t) == LET r == FoldLeft(PdfStep, Pen0, PdfBody(t)) IN r.err = {} /\ r.subs = <<>> /\ Matches(t, r.out, Id, 1, RgbOk)
PdfFrame(t) ==
  LET objs == Find(t, "obj") ents == Find(t, "entry") len == Find(t, "length") sec == Find(t, "section") IN
  /\ Find(t, "?") = <<>>
  /\ Len(len) = 1 /\ len[1].a = <<len[1].p>>
  /\ Find(t, "mediabox")[1].a = Box(t)
  /\ Len(sec) = 1 /\ sec[1].a = <<0, Len(ents)>> /\ Len(ents) = Len(objs) + 1
  /\ ents[1].a = <<0, 65535>> /\ ents[1].s = "f"
  /\ \A i \in 1 .. Len(objs) : LET n == objs[i].a[1] IN n + 1 <= Len(ents) /\ ents[n + 1].a = <<objs[i].p, 0>> /\ ents[n + 1].s = "n"
  /\ {objs[i].a[1] : i \in 1 .. Len(objs)} = 1 .. Len(objs)
  /\ Find(t, "Size")[1].a = <<Len(ents)>> /\ Find(t, "Root")[1].a = <<1>>
  /\ Find(t, "startxref")[1].a = <<Find(t, "xref")[1].p>>
  /\ Find(t, "balance")[1].a = <<0, 1>>

\* ------------------------------------------------------------- Sketch
SkEnd(st) == IF st.fc # <<>> THEN Paint(st, st.fc, "f") ELSE Paint(st, st.sc, "s")
SkStep(st, k) ==
  CASE k.o \in {"##Sketch", "document", "layer", "guess_cont"} -> st
    [] Is(k, "lp", 3) -> [SkEnd(st) EXCEPT !.sc = k.a]
    [] Is(k, "fp", 3) -> [SkEnd(st) EXCEPT !.fc = k.a]
    [] Is(k, "fe", 0) -> [st EXCEPT !.fc = <<>>]
    [] Is(k, "le", 0) -> [st EXCEPT !.sc = <<>>]
    [] Is(k, "b", 0) -> [st EXCEPT !.on = TRUE]
    [] Is(k, "bs", 3) -> IF st.on THEN [MoveTo(st, SubSeq(k.a, 1, 2)) EXCEPT !.on = FALSE] ELSE Grow(st, "L", SubSeq(k.a, 1, 2), 2)
    [] Is(k, "bc", 7) /\ ~st.on -> Grow(st, "C", SubSeq(k.a, 1, 6), 6)
    [] Is(k, "bC", 0) /\ st.subs # <<>> /\ st.fc # <<>> -> st
    [] OTHER -> Err(st, "token")
SkRun(t) == SkEnd(FoldLeft(SkStep, Pen0, t.toks))
SkDraws(t) == LET r == SkRun(t) IN r.err = {} /\ Matches(t, r.out, Id, 1, RgbOk)
\* filled outlines are closed
SkFrame(t) == /\ Len(t.toks) >= 4 /\ [i \in 1 .. 4 |-> t.toks[i].o] = <<"##Sketch", "document", "layer", "guess_cont">>
              /\ Len(Find(t, "b")) = Len(t.lists)
              /\ Len(Find(t, "bC")) = Len(SelectSeq(t.lists, LAMBDA l : ~Stroked(t, l)))
              /\ Find(t, "?") = <<>>

\* ---------------------------------------------------------------- FIG
\* objects: a row of numbers, then rows of more numbers
FigStep(st, k) ==
  CASE k.o = "head" -> st
    [] k.o = "colour" -> IF st.objs # <<>> THEN [st EXCEPT !.err = @ \cup {"late colour"}] ELSE [st EXCEPT !.cols = Append(@, k.a)]
    [] k.o = "row" -> [st EXCEPT !.objs = Append(@, [h |-> k.a, d |-> <<>>])]
    [] k.o = "more" /\ st.objs # <<>> -> [st EXCEPT !.objs[Len(st.objs)].d = @ \o k.a]
    [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
FigRun(t) == FoldLeft(FigStep, [objs |-> <<>>, cols |-> <<>>, err |-> {}], t.toks)
FigBase == <<0, 255, 65280, 65535, 16711680, 16711935, 16776960, 16777215>>
FigColour(r, i) == IF i < 8 THEN FigBase[i + 1]
                   ELSE IF \E j \in 1 .. Len(r.cols) : r.cols[j][1] = i THEN r.cols[CHOOSE j \in 1 .. Len(r.cols) : r.cols[j][1] = i][2] ELSE -1
FigPts(d, n) == [i \in 1 .. n |-> <<d[(2 * i) - 1], d[2 * i]>>]
FigShape(t, l) == Cut(l, LAMBDA x, y : <<(15 * x) + 300000, (15 * ((1000 * t.h) - y)) + 300000>>, <<1, 2, 3, 4>>, 5)
\* fields of an object: 1 type 2 subtype 3 line style 4 width 5 pen colour 6 fill colour 7 depth 9 fill; last: number of points
Fig1(t, r, l, o) ==
  LET h == o.h
      n == h[Len(h)] \div 1000
      curved == \E j \in 1 .. Len(l.s) : ~IsLine(l.s[j])
      e == FigShape(t, l)
      two == ~curved /\ (Len(e) = 2 \/ (Len(e) = 3 /\ CloseSeq(e[1], e[3], 1000)))
      exact == Len(e) = n /\ SamePts(FigPts(o.d, n), e, 1100)
      \* a polygon ends where it starts
      closed == n = Len(e) + 1 /\ SamePts(FigPts(o.d, n), Append(e, e[1]), 1100)
  IN /\ Len(h) > 9 /\ n >= 1
     /\ h[1] = (IF curved THEN 3000 ELSE 2000)
     /\ Len(o.d) = (IF curved THEN 3 * n ELSE 2 * n)
     /\ h[5] = h[6] /\ FigColour(r, h[5] \div 1000) = PaintColour(t, l)
     /\ IF two THEN n \in 1 .. 3 /\ SamePts(FigPts(o.d, n), SubSeq(e, 1, n), 1100)
        ELSE exact \/ (~curved /\ ~t.cl /\ closed)
     /\ curved => /\ \A i \in 1 .. n : o.d[(2 * n) + i] \in {0, -1000}
                  \* the ends of the splines are corners, the points between are passed smoothly
                  /\ \A i \in 1 .. n : (o.d[(2 * n) + i] = 0) =
                       (i = 1 \/ \E j \in 1 .. Len(l.s) : i = 1 + Len(Cut([l EXCEPT !.s = SubSeq(@, 1, j)], LAMBDA x, y : <<x, y>>, <<1, 2, 3, 4>>, 5)) - 1)
     \* stroked or filled
     /\ IF t.cl THEN h[4] = 1000 /\ h[9] = -1000 ELSE (two /\ h[9] = -1000) \/ (h[4] = 0 /\ h[9] = 20000)
     /\ h[3] = 0
     /\ IF curved THEN h[2] = (IF t.cl THEN 4000 ELSE 5000) ELSE h[2] \in {1000, 3000} /\ (~t.cl /\ ~two => h[2] = 3000)
\* the box round all points of a list
FigBox(l) == LET xs == UNION {{l.s[j][(2 * i) - 1] : i \in 1 .. (Len(l.s[j]) \div 2)} : j \in 1 .. Len(l.s)}
                 ys == UNION {{l.s[j][2 * i] : i \in 1 .. (Len(l.s[j]) \div 2)} : j \in 1 .. Len(l.s)}
                 Least(X) == CHOOSE x \in X : \A y \in X : x <= y
                 Most(X) == CHOOSE x \in X : \A y \in X : x >= y
             IN <<Least(xs), Least(ys), Most(xs), Most(ys)>>
Covers(a, b) == a[1] + 4 < b[3] /\ b[1] + 4 < a[3] /\ a[2] + 4 < b[4] /\ b[2] + 4 < a[4]
\* nothing says which of two objects of one depth is drawn first: what may cover another lies above it
FigStack(t, r) == LET box == TLCEval([i \in 1 .. Len(t.lists) |-> FigBox(t.lists[i])]) IN
  \A i, j \in 1 .. Len(t.lists) : (i < j /\ Covers(box[i], box[j])) => r.objs[j].h[7] < r.objs[i].h[7] \/ r.objs[j].h[7] = 0
FigDraws(t) == LET r == FigRun(t) IN
  /\ r.err = {} /\ Len(r.objs) = Len(t.lists)
  /\ \A i \in 1 .. Len(t.lists) : Fig1(t, r, t.lists[i], r.objs[i])
  /\ FigStack(t, r)
FigFrame(t) == LET r == FigRun(t) IN
  /\ r.err = {}
  /\ Len(t.toks) >= 9 /\ [i \in 1 .. 9 |-> t.toks[i].s] = <<"#FIG 3.2", "Landscape", "Center", "Inches", "Letter", "100.00", "Single", "-2", "1200 2">>
  /\ \A i \in 1 .. Len(r.cols) : r.cols[i][1] = 31 + i
  /\ \A i, j \in 1 .. Len(r.cols) : i # j => r.cols[i][2] # r.cols[j][2]
  /\ \A i \in 1 .. Len(r.objs) : LET h == r.objs[i].h IN
       /\ Len(h) > 9
       /\ Len(r.objs[i].d) = (h[Len(h)] \div 1000) * (IF h[1] = 3000 THEN 3 ELSE 2)
       /\ h[7] >= 0 /\ h[7] <= 999000
       \* what is drawn later is not below what was drawn before
       /\ i > 1 => h[7] <= r.objs[i - 1].h[7]

\* ---------------------------------------------------------------- MIF
MifStep(st, k) ==
  CASE k.o = "Color" -> [st EXCEPT !.depth = @ + 1, !.cols = Append(@, [tag |-> "", v |-> <<>>])]
    [] k.o = "ColorTag" /\ st.cols # <<>> -> [st EXCEPT !.depth = @ + 1, !.cols[Len(st.cols)].tag = k.s]
    [] k.o \in {"ColorCyan", "ColorMagenta", "ColorYellow", "ColorBlack"} /\ st.cols # <<>> ->
         [st EXCEPT !.depth = @ + 1, !.cols[Len(st.cols)].v = @ \o k.a]
    [] k.o \in {"PolyLine", "Polygon"} -> [st EXCEPT !.depth = @ + 1, !.objs = Append(@, [o |-> k.o, c |-> "", pen |-> <<>>, fill |-> <<>>, pts |-> <<>>])]
    [] k.o \in {"Pen", "Fill", "Point", "ObColor", "Smoothed"} /\ st.objs # <<>> ->
         LET n == Len(st.objs) d == [st EXCEPT !.depth = @ + 1] IN
         CASE k.o = "Pen" -> [d EXCEPT !.objs[n].pen = @ \o k.a]
           [] k.o = "Fill" -> [d EXCEPT !.objs[n].fill = @ \o k.a]
           [] k.o = "Point" -> [d EXCEPT !.objs[n].pts = Append(@, k.a)]
           [] k.o = "ObColor" -> [d EXCEPT !.objs[n].c = k.s]
           [] OTHER -> d
    [] k.o \in {"MIFFile", "Units", "ColorCatalog", "Frame", "Pen", "Fill", "PenWidth", "Separation", "BRect"} -> [st EXCEPT !.depth = @ + 1]
    [] k.o = ">" -> IF st.depth = 0 THEN [st EXCEPT !.err = @ \cup {"unbalanced"}] ELSE [st EXCEPT !.depth = @ - 1]
    [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
MifRun(t) == FoldLeft(MifStep, [depth |-> 0, cols |-> <<>>, objs |-> <<>>, err |-> {}], t.toks)
MifPoint(t, x, y) == <<RDiv(x * 72, t.dpi), RDiv(((1000 * (t.h + 1)) - y) * 72, t.dpi)>>
Percent(v) == [i \in 1 .. 4 |-> 1000 * ((v[i] * 100) \div 255)]
MifName(r, tag) == {i \in 1 .. Len(r.cols) : "`" \o r.cols[i].tag \o "'" = tag}
Mif1(t, r, l, o) ==
  /\ o.o = (IF Stroked(t, l) THEN "PolyLine" ELSE "Polygon")
  /\ <<o.fill, o.pen>> = (IF Stroked(t, l) THEN <<<<15000>>, <<0>>>> ELSE <<<<0>>, <<15000>>>>)
  \* cut at 1/7 ... 5/7 or 6/7
  /\ \E ks \in {<<1, 2, 3, 4, 5>>, <<1, 2, 3, 4, 5, 6>>} : SamePts(o.pts, Cut(l, LAMBDA x, y : MifPoint(t, x, y), ks, 7), 10 + (300 \div t.dpi))
  /\ \E i \in MifName(r, o.c) : CloseSeq(r.cols[i].v, Percent(Cmyk(PaintColour(t, l))), 1000)
MifDraws(t) == LET r == MifRun(t) IN r.err = {} /\ Len(r.objs) = Len(t.lists) /\ \A i \in 1 .. Len(t.lists) : Mif1(t, r, t.lists[i], r.objs[i])
MifFrame(t) == LET r == MifRun(t) br == Find(t, "BRect") IN
  /\ r.err = {} /\ r.depth = 0
  /\ Len(Find(t, "MIFFile")) = 1 /\ t.toks[1].o = "MIFFile" /\ Len(Find(t, "ColorCatalog")) = 1 /\ Len(Find(t, "Frame")) = 1
  /\ Len(br) = 1 /\ Len(br[1].a) = 4
  /\ CloseSeq(br[1].a, <<0, 0, RDiv(t.w * 72000, t.dpi), RDiv(t.h * 72000, t.dpi)>>, 60)
  \* every colour has one entry and every object a known colour
  /\ \A i, j \in 1 .. Len(r.cols) : i # j => r.cols[i].tag # r.cols[j].tag
  /\ \A i \in 1 .. Len(r.objs) : MifName(r, r.objs[i].c) # {}

\* ----------------------------------------------------- Elastic Reality
ErStep(st, k) ==
  CASE k.o = "{" -> LET s == [st EXCEPT !.path = Append(@, k.s)] IN
                    IF k.s = "Shape" THEN [s EXCEPT !.shapes = Append(@, [b |-> <<>>, c |-> <<>>, closed |-> "", pts |-> <<>>, wts |-> <<>>, corr |-> <<>>])] ELSE s
    [] k.o = "}" -> IF st.path = <<>> THEN [st EXCEPT !.err = @ \cup {"unbalanced"}] ELSE [st EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)]
    [] k.o = "points" /\ st.path = <<"Shape", "FormKey", "PointList">> -> [st EXCEPT !.shapes[Len(st.shapes)].pts = Append(@, k.a)]
    [] k.o = "numbers" /\ st.path = <<"Shape", "WeightKey", "PointList">> -> [st EXCEPT !.shapes[Len(st.shapes)].wts = Append(@, k.a)]
    [] k.o = "numbers" /\ st.path = <<"Shape", "CorrKey", "PointList">> -> [st EXCEPT !.shapes[Len(st.shapes)].corr = @ \o k.a]
    [] k.o = "BPoints" /\ st.path = <<"Shape">> -> [st EXCEPT !.shapes[Len(st.shapes)].b = k.a]
    [] k.o = "CPoints" /\ st.path = <<"Shape">> -> [st EXCEPT !.shapes[Len(st.shapes)].c = k.a]
    [] k.o = "Closed" /\ st.path = <<"Shape">> -> [st EXCEPT !.shapes[Len(st.shapes)].closed = k.s]
    [] k.o \in {"Width", "Height"} /\ st.path = <<"ImageSize">> -> [st EXCEPT !.size = @ \o k.a]
    [] k.o \in {"Group", "Type", "Roll", "Opaque", "Locked", "Warp", "CookieCut", "ColorCorrect", "Precision", "Tween", "Frame"} -> st
    [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
ErRun(t) == FoldLeft(ErStep, [path |-> <<>>, shapes |-> <<>>, size |-> <<>>, err |-> {}], t.toks)
ErTail(l) == l.open \/ Len(l.s) = 1
\* one triple per spline: how the curve arrives at its start, the start, how it leaves; then the end of an open list
\* P(j, i) is the i-th value (1 .. 4) of spline j
ErTriples(l, P(_, _)) ==
  LET n == Len(l.s)
      prev(j) == IF j > 1 THEN j - 1 ELSE n
      into(j) == IF (j = 1 /\ ErTail(l)) \/ IsLine(l.s[prev(j)]) THEN P(j, 1) ELSE P(prev(j), 3)
      away(j) == IF IsLine(l.s[j]) THEN P(j, 1) ELSE P(j, 2)
  IN [j \in 1 .. n |-> into(j) \o P(j, 1) \o away(j)]
     \o (IF ErTail(l) THEN <<(IF IsLine(l.s[n]) THEN P(n, 4) ELSE P(n, 3)) \o P(n, 4) \o P(n, 4)>> ELSE <<>>)
ErPoint(t, l, j, i) == LET s == l.s[j] k == IF IsLine(s) THEN (IF i = 4 THEN 2 ELSE 1) ELSE i
                       IN <<RDiv(s[(2 * k) - 1] * 1000, t.w), RDiv(s[2 * k] * 1000, t.h)>>
ErWeight(t, l, j, i) == LET s == l.z[j] k == IF Len(s) = 2 THEN (IF i = 4 THEN 2 ELSE 1) ELSE i IN <<RDiv(s[k] * 1000, t.pw)>>
ErDraws(t) == LET r == ErRun(t) IN
  /\ r.err = {} /\ Len(r.shapes) = Len(t.lists)
  /\ \A i \in 1 .. Len(t.lists) : LET l == t.lists[i] IN
       /\ SamePts(r.shapes[i].pts, ErTriples(l, LAMBDA j, m : ErPoint(t, l, j, m)), 2 + (600 \div Min2(t.w, t.h)))
       /\ r.shapes[i].closed = (IF l.open THEN "False" ELSE "True")
       /\ IF t.cl /\ t.pw > 0 THEN SamePts(r.shapes[i].wts, ErTriples(l, LAMBDA j, m : ErWeight(t, l, j, m)), 3) ELSE r.shapes[i].wts = <<>>
ErFrame(t) == LET r == ErRun(t) IN
  /\ r.err = {} /\ r.path = <<>> /\ r.size = <<1000 * t.w, 1000 * t.h>>
  /\ \A i \in 1 .. Len(r.shapes) : LET s == r.shapes[i] IN
       /\ s.b = <<1000 * Len(s.pts)>>
       /\ s.wts # <<>> => Len(s.wts) = Len(s.pts)
       /\ s.c = <<1000 * Len(s.corr)>>
       /\ s.corr[1] = 0 /\ \A j \in 2 .. Len(s.corr) : s.corr[j - 1] <= s.corr[j]
       /\ s.corr[Len(s.corr)] <= 1000 * Len(s.pts)

\* ---------------------------------------------------------------- POV
PovStep(st, k) ==
  CASE k.o = "prism" -> [st EXCEPT !.prisms = Append(@, [n |-> <<>>, v |-> <<>>, c |-> <<>>, done |-> FALSE])]
    [] k.o = "{" -> [st EXCEPT !.depth = @ + 1]
    [] k.o = "}" -> IF st.depth = 0 THEN [st EXCEPT !.err = @ \cup {"unbalanced"}]
                    ELSE [st EXCEPT !.depth = @ - 1, !.mode = IF st.depth = 1 THEN "" ELSE "after"]
    [] st.prisms = <<>> -> [st EXCEPT !.err = @ \cup {"token"}]
    [] k.o = "bezier_spline" -> [st EXCEPT !.mode = "spline"]
    [] k.o = "pigment" -> [st EXCEPT !.mode = "pigment"]
    [] k.o = "translate" -> [st EXCEPT !.mode = "translate"]
    [] k.o = "rgb" -> st
    [] k.o = "number" -> [st EXCEPT !.prisms[Len(st.prisms)].n = @ \o k.a]
    [] k.o = "<>" -> CASE st.mode = "spline" -> [st EXCEPT !.prisms[Len(st.prisms)].v = Append(@, k.a)]
                       [] st.mode = "pigment" -> [st EXCEPT !.prisms[Len(st.prisms)].c = @ \o k.a]
                       [] st.mode = "translate" -> IF k.a = <<0, 0, 0>> THEN st ELSE [st EXCEPT !.err = @ \cup {"moved"}]
                       [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
    [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
PovRun(t) == FoldLeft(PovStep, [prisms |-> <<>>, depth |-> 0, mode |-> "", err |-> {}], t.toks)
PovSpline(s) == IF IsLine(s) THEN <<StartOf(s), StartOf(s), EndOf(s), EndOf(s)>> ELSE [i \in 1 .. 4 |-> <<s[(2 * i) - 1], s[2 * i]>>]
PovList(l) == FlattenSeq([j \in 1 .. Len(l.s) |-> PovSpline(l.s[j])])
PovDraws(t) == IF t.cl THEN t.toks = <<>> /\ t.fatal = 1
  ELSE LET r == PovRun(t) g == Groups(t.lists, <<>>) IN
  /\ r.err = {} /\ Len(r.prisms) = Len(g)
  /\ \A i \in 1 .. Len(g) : /\ RgbOk(r.prisms[i].c, g[i][1].c)
                            /\ SamePts(r.prisms[i].v, FlattenSeq([j \in 1 .. Len(g[i]) |-> PovList(g[i][j])]), 1)
PovFrame(t) == LET r == PovRun(t) IN
  /\ r.err = {} /\ r.depth = 0
  /\ \A i \in 1 .. Len(r.prisms) : r.prisms[i].n = <<0, 1, 10000 * Len(r.prisms[i].v)>>

\* ---------------------------------------------------------------- UGS
\* glyphs have straight lines and pairs of quadratic curves, in whole pixels
UgsStep(st, k) ==
  CASE k.o = "contour" /\ st.in = "" -> [st EXCEPT !.in = "contour"]
    [] k.o = "path" /\ st.in = "contour" -> [st EXCEPT !.in = "path", !.paths = Append(@, <<>>)]
    [] Is(k, "dot-on", 2) /\ st.in = "path" -> [st EXCEPT !.paths[Len(st.paths)] = Append(@, [on |-> TRUE, q |-> k.a])]
    [] Is(k, "dot-off", 2) /\ st.in = "path" -> [st EXCEPT !.paths[Len(st.paths)] = Append(@, [on |-> FALSE, q |-> k.a])]
    [] k.o = "end path" /\ st.in = "path" -> [st EXCEPT !.in = "contour"]
    [] k.o = "end contour" /\ st.in = "contour" -> [st EXCEPT !.in = "done"]
    [] k.o \in {"symbol", "advance-width", "left-bearing", "right-bearing", "ascend", "descend", "end symbol"} /\ st.in \in {"", "done"} ->
         [st EXCEPT !.meta = Append(@, k)]
    [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
UgsRun(t) == FoldLeft(UgsStep, [in |-> "", paths |-> <<>>, meta |-> <<>>, err |-> {}], t.toks)
\* ds: dots; the position behind spline s when it starts at the dot i, or 0
RECURSIVE UgsFrom(_, _, _, _)
UgsNear(q, p) == CloseSeq(q, p, 501)
UgsOn(ds, i, p) == i <= Len(ds) /\ ds[i].on /\ UgsNear(ds[i].q, p)
UgsOff(ds, i) == i <= Len(ds) /\ ~ds[i].on
OnCurve(q, s) == \E i \in 0 .. 40 : CloseSeq(q, Bez(s, i, 40), 1200)
UgsCurve(ds, i, s) == LET j == IF UgsOff(ds, i + 1) THEN i + 2 ELSE i + 1
                          k == IF UgsOff(ds, j + 1) THEN j + 2 ELSE j + 1
                      IN IF j <= Len(ds) /\ ds[j].on /\ OnCurve(ds[j].q, s) /\ UgsOn(ds, k, EndOf(s)) THEN k ELSE 0
UgsFrom(ds, i, l, j) ==
  IF i = 0 THEN FALSE
  ELSE IF j > Len(l.s) THEN i = Len(ds)
  ELSE LET s == l.s[j] IN
       IF IsLine(s) THEN \/ UgsOn(ds, i + 1, EndOf(s)) /\ UgsFrom(ds, i + 1, l, j + 1)
                         \/ UgsNear(ds[i].q, EndOf(s)) /\ UgsFrom(ds, i, l, j + 1)
       ELSE UgsFrom(ds, UgsCurve(ds, i, s), l, j + 1)
UgsDraws(t) == LET r == UgsRun(t) IN
  /\ r.err = {} /\ Len(r.paths) = Len(t.lists)
  /\ \A i \in 1 .. Len(t.lists) : UgsOn(r.paths[i], 1, First(t.lists[i])) /\ UgsFrom(r.paths[i], 1, t.lists[i], 1)
\* the bearings enclose the dots
UgsFrame(t) == LET r == UgsRun(t)
                   dots == FlattenSeq(r.paths)
                   xs == {dots[i].q[1] : i \in 1 .. Len(dots)}
                   ys == {dots[i].q[2] : i \in 1 .. Len(dots)}
                   lo(S) == CHOOSE x \in S : \A y \in S : x <= y
                   hi(S) == CHOOSE x \in S : \A y \in S : x >= y
                   val(o) == LET f == SelectSeq(r.meta, LAMBDA k : k.o = o) IN IF Len(f) = 1 /\ Len(f[1].a) = 1 THEN f[1].a[1] ELSE -999999
               IN
  /\ r.err = {} /\ r.in = "done"
  /\ Len(r.meta) = 7 /\ r.meta[1].o = "symbol" /\ r.meta[7].o = "end symbol"
  \* a dot between the ends of a rounded curve need not be written, so the bounds may be wider than the dots
  /\ dots # <<>> => /\ val("left-bearing") <= lo(xs) /\ val("descend") <= lo(ys)
                    /\ val("advance-width") - val("right-bearing") - 1000 >= hi(xs)
                    /\ val("ascend") - 1000 >= hi(ys)

\* ---------------------------------------------------------------- DXF
\* groups of a code k.o and a value; vertices [q, lay, new]: new begins a polyline
DxfStep(st, k) ==
  CASE k.o = "0" /\ k.s = "POLYLINE" -> IF st.open THEN [st EXCEPT !.err = @ \cup {"polyline within a polyline"}]
                                        ELSE [st EXCEPT !.open = TRUE, !.cur = "P", !.fresh = TRUE]
    [] k.o = "0" /\ k.s = "VERTEX" -> IF st.open THEN [st EXCEPT !.cur = "V", !.vs = Append(@, [q |-> <<>>, lay |-> "", new |-> st.fresh]), !.fresh = FALSE]
                                      ELSE [st EXCEPT !.err = @ \cup {"vertex outside"}]
    [] k.o = "0" /\ k.s = "SEQEND" -> IF st.open THEN [st EXCEPT !.open = FALSE, !.cur = "E"] ELSE [st EXCEPT !.err = @ \cup {"end without begin"}]
    [] k.o = "8" /\ st.cur # "" -> IF st.cur = "V" THEN [st EXCEPT !.vs[Len(st.vs)].lay = k.s] ELSE st
    [] k.o = "66" /\ st.cur = "P" -> st
    [] k.o \in {"10", "20"} /\ Len(k.a) = 1 /\ st.cur \in {"P", "V"} -> IF st.cur = "V" THEN [st EXCEPT !.vs[Len(st.vs)].q = @ \o k.a] ELSE st
    [] OTHER -> [st EXCEPT !.err = @ \cup {"token"}]
DxfMark(t, word) == {i \in 1 .. Len(t.toks) : t.toks[i].o = "0" /\ t.toks[i].s = word}
DxfSection(t, word) == {i \in 2 .. Len(t.toks) : t.toks[i].o = "2" /\ t.toks[i].s = word /\ (i - 1) \in DxfMark(t, "SECTION")}
One(S) == \E x \in S : S = {x}
The(S) == CHOOSE x \in S : TRUE
\* the entities: between the name of their section and its end, before the end of the file
DxfShaped(t) == Len(t.toks) > 4 /\ One(DxfSection(t, "ENTITIES"))
DxfRun(t) == FoldLeft(DxfStep, [vs |-> <<>>, open |-> FALSE, cur |-> "", fresh |-> FALSE, err |-> {}],
                      SubSeq(t.toks, The(DxfSection(t, "ENTITIES")) + 1, Len(t.toks) - 2))
\* the layer entries: name, flags, colour number, line style
DxfLayers(t) == LET rows == {i \in DxfMark(t, "LAYER") : i + 3 <= Len(t.toks)}
                IN {[n |-> t.toks[i + 1].s, c |-> t.toks[i + 3].a, o |-> <<t.toks[i + 1].o, t.toks[i + 3].o>>] : i \in rows}
\* numbers of the colours every reader agrees on
DxfKnown == <<16711680, 16776960, 65280, 65535, 255, 16711935, 16777215>>
Sq(x) == x * x
Far(c, d) == Sq(R(c) - R(d)) + Sq(G(c) - G(d)) + Sq(B(c) - B(d))
DxfColourOk(t, lay, c) ==
  \E r \in DxfLayers(t) :
    /\ r.n = lay /\ r.o = <<"2", "62">> /\ Len(r.c) = 1
    /\ LET k == r.c[1] \div 1000 IN
       /\ k \in 1 .. 255
       /\ \A i \in 1 .. 6 : c = DxfKnown[i] => k = i
       /\ c = DxfKnown[7] => k \in {7, 255}
       /\ k \in 1 .. 7 => \A i \in 1 .. 7 : Far(c, DxfKnown[k]) <= Far(c, DxfKnown[i])
\* ds from d on follow the curve s in n steps; steps are not longer than 4 pixels
Follows(vs, i, s, n, tol) == /\ i + n <= Len(vs)
                             /\ \A k \in 1 .. n : ~vs[i + k].new /\ CloseSeq(vs[i + k].q, Bez(s, k, n), tol)
FineEnough(vs, i, n) == \A k \in 1 .. n : CloseSeq(vs[i + k].q, vs[i + k - 1].q, 4000)
\* vs[i] is where spline j of the list starts; where the list ends, or 0
RECURSIVE DxfList(_, _, _, _)
DxfList(vs, i, l, j) ==
  IF j > Len(l.s) THEN i
  ELSE LET s == l.s[j]
           ns == IF IsLine(s) THEN {} ELSE {n \in 1 .. 400 : i + n <= Len(vs) /\ CloseSeq(vs[i + n].q, EndOf(s), 2) /\ Follows(vs, i, s, n, 4) /\ FineEnough(vs, i, n)}
       IN IF IsLine(s) THEN IF i + 1 <= Len(vs) /\ ~vs[i + 1].new /\ CloseSeq(vs[i + 1].q, EndOf(s), 2) THEN DxfList(vs, i + 1, l, j + 1) ELSE 0
          ELSE IF ns = {} THEN 0 ELSE DxfList(vs, i + (CHOOSE n \in ns : \A m \in ns : m >= n), l, j + 1)
DxfAll(t, vs) ==
  FoldLeft(LAMBDA st, l :
             IF ~st.ok THEN st
             ELSE \* begins a polyline, or goes on where the last one ended, in the same layer
               LET goes == st.i > 0 /\ (st.i + 1 > Len(vs) \/ ~vs[st.i + 1].new) /\ CloseSeq(vs[st.i].q, First(l), 2)
                   begins == st.i + 1 <= Len(vs) /\ vs[st.i + 1].new /\ CloseSeq(vs[st.i + 1].q, First(l), 2)
                   from == IF goes THEN st.i ELSE st.i + 1
                   end == IF goes \/ begins THEN DxfList(vs, from, l, 1) ELSE 0
               IN IF end = 0 THEN [st EXCEPT !.ok = FALSE]
                  ELSE [i |-> end, ok |-> \A k \in from .. end : DxfColourOk(t, vs[k].lay, PaintColour(t, l))],
           [i |-> 0, ok |-> TRUE], t.lists)
DxfDraws(t) == DxfShaped(t) /\ LET r == DxfRun(t) a == DxfAll(t, r.vs) IN r.err = {} /\ ~r.open /\ a.ok /\ a.i = Len(r.vs)
DxfAfter(t, word) == LET S == {i \in 1 .. Len(t.toks) : t.toks[i].o = "9" /\ t.toks[i].s = word}
                     IN IF One(S) /\ The(S) + 2 <= Len(t.toks) THEN t.toks[The(S) + 1].a \o t.toks[The(S) + 2].a ELSE <<>>
DxfFrame(t) ==
  /\ DxfShaped(t)
  /\ LET n == Len(t.toks) r == DxfRun(t) names == {x.n : x \in DxfLayers(t)} IN
     /\ r.err = {} /\ ~r.open
     /\ n \in DxfMark(t, "EOF") /\ One(DxfMark(t, "EOF")) /\ (n - 1) \in DxfMark(t, "ENDSEC")
     \* sections and tables open and close in turn
     /\ LET f == FoldLeft(LAMBDA st, k : IF k.o # "0" THEN st
                                         ELSE CASE k.s = "SECTION" -> IF st = "" THEN "s" ELSE "bad"
                                                [] k.s = "ENDSEC" -> IF st = "s" THEN "" ELSE "bad"
                                                [] k.s = "TABLE" -> IF st = "s" THEN "t" ELSE "bad"
                                                [] k.s = "ENDTAB" -> IF st = "t" THEN "s" ELSE "bad"
                                                [] OTHER -> st, "", t.toks) IN f = ""
     /\ DxfAfter(t, "$EXTMIN") = <<0, 0>> /\ DxfAfter(t, "$EXTMAX") = <<1000 * t.w, 1000 * t.h>>
     /\ \A i \in 1 .. Len(r.vs) : r.vs[i].lay \in names /\ Len(r.vs[i].q) = 2
     /\ \A x, y \in DxfLayers(t) : x.n = y.n => x = y
=============================================================================

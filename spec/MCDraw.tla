------------------------------- MODULE MCDraw -------------------------------
(***************************************************************************)
(* A writer turning a growing tracing result into drawing commands, with   *)
(* neighbouring lists of one colour sharing their colour and painting      *)
(* commands, and the pen machines of the formats reading what it wrote.    *)
(* Every pattern of lists is also replayed into the real writers.          *)
(*   LAPSE = "end": the last group is not painted                          *)
(*   LAPSE = "first": a new group is begun when the colour differs from    *)
(*   that of the first list instead of the last one                        *)
(***************************************************************************)
EXTENDS Pen, TLC
LOCAL INSTANCE SequencesExt
CONSTANTS MAXLISTS, COLOURS, SHAPES, CENTRE, DIALECT, LAPSE
VARIABLES lists, code, toks, stage
vars == <<lists, code, toks, stage>>

\* degrees of the splines of a list
Kinds == <<<<1>>, <<3>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<3, 3>>>>
Tok(o, a) == [o |-> o, a |-> a, s |-> "", p |-> 0]
Point(n) == <<1000 * (n % 5), 500 * (n % 7)>>
\* k: number of points drawn before
Geometry(kind, k, from) ==
  [j \in 1 .. Len(kind) |->
     LET a == IF j = 1 THEN from ELSE Point(k + (3 * (j - 1))) b == Point(k + (3 * j))
     IN IF kind[j] = 1 THEN a \o b ELSE a \o Point(k + (3 * j) - 2) \o Point(k + (3 * j) - 1) \o b]
Frac(v) == [i \in 1 .. Len(v) |-> (v[i] * 1000) \div 255]

Closing(stroke) ==
  CASE DIALECT = "svg" -> <<Tok("endpath", <<>>)>>
    [] DIALECT = "eps" -> <<Tok("*U", <<>>)>>
    [] DIALECT = "p2e" -> <<Tok(IF stroke THEN "stroke" ELSE "fill", <<>>)>>
    [] OTHER -> <<Tok(IF stroke THEN "S" ELSE "f", <<>>)>>
Opening(c, stroke) ==
  CASE DIALECT = "svg" -> <<Tok("path", IF stroke THEN <<-1, c>> ELSE <<c, -1>>)>>
    [] DIALECT = "eps" -> <<Tok(IF stroke THEN "K" ELSE "k", Frac(Cmyk(c))), Tok("*u", <<>>)>>
    [] DIALECT = "p2e" -> <<Tok("setcmykcolor", Frac(Cmyk(c))), Tok("newpath", <<>>)>>
    [] OTHER -> <<Tok(IF stroke THEN "RG" ELSE "rg", Frac(Rgb(c)))>>
Names == [svg |-> <<"M", "L", "C">>, eps |-> <<"m", "l", "c">>, p2e |-> <<"moveto", "lineto", "curveto">>, pdf |-> <<"m", "l", "c">>]
Height == 4
Place(x, y) == IF DIALECT = "svg" THEN <<x, (1000 * Height) - y>> ELSE <<x, y>>
Body(l, stroke) == [i \in 1 .. (Len(l.s) + 1) |-> LET n == PathOf(l, Place)[i]
                                          IN Tok(Names[DIALECT][CASE n.o = "M" -> 1 [] n.o = "L" -> 2 [] OTHER -> 3], n.q)]
                   \o (IF DIALECT = "eps" THEN <<Tok(IF stroke THEN "S" ELSE "f", <<>>)>> ELSE <<>>)

Init == lists = <<>> /\ code = <<>> /\ toks = <<>> /\ stage = "lists"
Add == /\ stage = "lists" /\ Len(lists) < MAXLISTS
       /\ \E c \in COLOURS, k \in SHAPES, flag \in BOOLEAN, joined \in {FALSE} \cup (IF lists = <<>> THEN {} ELSE {TRUE}) :
            LET at == 5 * Len(lists)
                from == IF joined THEN EndOf(lists[Len(lists)].s[Len(lists[Len(lists)].s)]) ELSE Point(at)
                l == [c |-> c, cw |-> ~CENTRE /\ flag, open |-> CENTRE /\ flag, s |-> Geometry(Kinds[k], at, from), z |-> <<>>]
                before == IF LAPSE = "first" THEN lists[1].c ELSE lists[Len(lists)].c
                fresh == IF lists = <<>> THEN TRUE ELSE before # c
            IN /\ lists' = Append(lists, l)
               /\ code' = code \o <<c, IF flag THEN 1 ELSE 0, IF joined THEN 1 ELSE 0, k>>
               /\ toks' = toks \o (IF fresh THEN (IF lists = <<>> THEN <<>> ELSE Closing(CENTRE)) \o Opening(c, CENTRE) ELSE <<>>) \o Body(l, CENTRE)
       /\ UNCHANGED stage
Finish == /\ stage = "lists" /\ stage' = "done" /\ UNCHANGED <<lists, code>>
          /\ toks' = IF lists = <<>> \/ LAPSE = "end" THEN toks ELSE toks \o Closing(CENTRE)
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

Result == [w |-> 4, h |-> Height, cl |-> CENTRE, bg |-> -1, lists |-> lists, toks |-> toks, fatal |-> 0]
\* the prologue of PostScript is not part of the model
PsDraws(t) == LET r == EpsRun(t) IN r.err = {} /\ r.subs = <<>> /\ ~r.comp /\ Matches(t, r.out, Id, 1, CmykOk)
EpdLike(t) == LET r == FoldLeft(PdfStep, Pen0, t.toks) IN r.err = {} /\ r.subs = <<>> /\ Matches(t, r.out, Id, 1, RgbOk)
Faithful == stage = "done" =>
  CASE DIALECT = "svg" -> SvgDraws(Result) [] DIALECT = "eps" -> PsDraws(Result) [] DIALECT = "p2e" -> P2eDraws(Result) [] OTHER -> EpdLike(Result)
\* what was painted so far are the first lists, in order
SoFar == LET r == CASE DIALECT = "svg" -> SvgRun(Result) [] DIALECT = "eps" -> EpsRun(Result) [] DIALECT = "p2e" -> P2eRun(Result)
                    [] OTHER -> FoldLeft(PdfStep, Pen0, toks)
         IN /\ r.err = {} /\ Len(r.out) <= Len(lists)
            /\ \A i \in 1 .. Len(r.out) : SamePath(r.out[i].p, PathOf(lists[i], Place), 0)
Emit == stage = "done" => PrintT(<<"FILE", code>>)
=============================================================================

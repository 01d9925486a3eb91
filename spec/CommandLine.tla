---------------------------- MODULE CommandLine -----------------------------
(***************************************************************************)
(* What a list of command-line arguments asks for.  Plan(args) runs over   *)
(* the arguments from left to right:                                       *)
(*   an option is written with one or two dashes and its name or any       *)
(*   unambiguous beginning of it, its value after "=" or as the next       *)
(*   argument; "--" ends the options; everything else names the input.     *)
(* The result has what: "refuse" (status 1, a message, nothing touched),   *)
(* "info" (something is printed, status 0) or "convert" with the input,    *)
(* the formats, the output name ("" for standard output), the options set  *)
(* (name -> value; decimals in thousandths), and the flags version,        *)
(* progress, dump, log.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
F == INSTANCE Formats

\* name, kind of value
Table == <<<<"align-threshold", "unused">>, <<"background-color", "colour">>, <<"debug-arch", "info">>, <<"debug-bitmap", "flag">>,
  <<"centerline", "switch">>, <<"charcode", "code">>, <<"color-count", "count">>, <<"corner-always-threshold", "decimal">>,
  <<"corner-surround", "count">>, <<"corner-threshold", "decimal">>, <<"despeckle-level", "count">>, <<"despeckle-tightness", "decimal">>,
  <<"dpi", "count">>, <<"error-threshold", "decimal">>, <<"filter-iterations", "count">>, <<"help", "info">>, <<"input-format", "informat">>,
  <<"line-reversion-threshold", "decimal">>, <<"line-threshold", "decimal">>, <<"list-output-formats", "info">>, <<"list-input-formats", "info">>,
  <<"log", "flag">>, <<"noise-removal", "decimal">>, <<"output-file", "outfile">>, <<"output-format", "outformat">>,
  <<"preserve-width", "switch">>, <<"range", "unused">>, <<"remove-adjacent-corners", "switch">>, <<"remove-knees", "switch">>,
  <<"tangent-surround", "count">>, <<"report-progress", "flag">>, <<"version", "flag">>, <<"width-weight-factor", "decimal">>>>
Bare == {"info", "flag", "switch"}

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Find(s, c) == IF \E i \in 1 .. Len(s) : Ch(s, i) = c THEN CHOOSE i \in 1 .. Len(s) : Ch(s, i) = c /\ \A j \in 1 .. (i - 1) : Ch(s, j) # c ELSE 0

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {Ch(Ascii, i) : i \in 1 .. Len(Ascii)} |-> 31 + Find(Ascii, c)]
Codes(s) == [i \in 1 .. Len(s) |-> Ord[Ch(s, i)]]

Digits == "0123456789abcdef"
Digit(c, base) == LET low == IF c \in DOMAIN Ord /\ Ord[c] \in 65 .. 70 THEN Ch(Digits, Ord[c] - 54) ELSE c
                      d == Find(Digits, low) - 1
                  IN IF d < base THEN d ELSE -1
\* the value of the digits from i on, and where they end
RECURSIVE Run(_, _, _, _)
Run(s, i, base, v) == IF i > Len(s) \/ Digit(Ch(s, i), base) < 0 THEN <<v, i>> ELSE Run(s, TLCEval(i + 1), base, TLCEval((v * base) + Digit(Ch(s, i), base)))
RECURSIVE Skip(_)
Skip(s) == IF s # "" /\ Ch(s, 1) = " " THEN Skip(From(s, 2)) ELSE s
Sign(s) == IF s # "" /\ Ch(s, 1) = "-" THEN -1 ELSE 1
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
\* whatever follows the number is ignored
Whole(t) == LET s == Skip(t) IN Sign(s) * Run(Unsigned(s), 1, 10, 0)[1]
Thousandths(t) ==
  LET s == Skip(t) u == Unsigned(s) w == Run(u, 1, 10, 0)
      dot == w[2] <= Len(u) /\ Ch(u, w[2]) = "."
      d(k) == IF dot /\ Run(u, w[2] + 1, 10, 0)[2] > w[2] + k THEN Digit(Ch(u, w[2] + k), 10) ELSE 0
  IN Sign(s) * ((1000 * w[1]) + (100 * d(1)) + (10 * d(2)) + d(3))
Code(t) == LET s == Skip(t) u == Unsigned(s)
           IN IF Starts(u, "0x") \/ Starts(u, "0X") THEN Run(u, 3, 16, 0)[1]
              ELSE IF Starts(u, "0") THEN Run(u, 1, 8, 0)[1] ELSE Run(u, 1, 10, 0)[1]
IsColour(s) == Len(s) = 6 /\ \A i \in 1 .. 6 : Digit(Ch(s, i), 16) >= 0
Colour(s) == Run(s, 1, 16, 0)[1]

\* the rows an option name stands for: an exact name stands for itself alone
Rows(n) == IF \E i \in 1 .. Len(Table) : Table[i][1] = n THEN {i \in 1 .. Len(Table) : Table[i][1] = n}
           ELSE {i \in 1 .. Len(Table) : Starts(Table[i][1], n)}

Start == [what |-> "", ended |-> FALSE, files |-> <<>>, sets |-> [x \in {} |-> 0], in |-> "", out |-> "", outfmt |-> "", flags |-> {}]
Set(st, n, v) == [st EXCEPT !.sets = (n :> v) @@ @]
Refuse(st) == [st EXCEPT !.what = "refuse"]
Take(st, row, v) ==
  LET n == row[1] k == row[2] IN
  CASE k = "unused" -> st
    [] k = "info" -> [st EXCEPT !.what = "info"]
    [] k = "flag" -> [st EXCEPT !.flags = @ \cup {n}]
    [] k = "switch" -> Set(st, n, 1)
    [] k = "colour" -> IF IsColour(v) THEN Set(st, n, Colour(v)) ELSE Refuse(st)
    [] k = "code" -> Set(st, n, Code(v))
    [] k = "count" -> IF Whole(v) < 0 THEN Refuse(st) ELSE Set(st, n, Whole(v))
    [] k = "decimal" -> Set(st, n, Thousandths(v))
    [] k = "informat" -> LET h == F!BySuffix(F!Start("in"), Codes(v)).fn IN IF h = "none" THEN Refuse(st) ELSE [st EXCEPT !.in = v]
    [] k = "outformat" -> LET h == F!BySuffix(F!Start("out"), Codes(v)).fn IN IF h = "none" THEN Refuse(st) ELSE [st EXCEPT !.outfmt = v]
    [] OTHER -> [st EXCEPT !.out = v]
RECURSIVE Walk(_, _)
Walk(st, args) ==
  IF st.what # "" \/ args = <<>> THEN st
  ELSE LET a == TLCEval(Head(args)) IN
       IF st.ended \/ Len(a) < 2 \/ Ch(a, 1) # "-" THEN Walk(TLCEval([st EXCEPT !.files = Append(@, a)]), TLCEval(Tail(args)))
       ELSE IF a = "--" THEN Walk(TLCEval([st EXCEPT !.ended = TRUE]), TLCEval(Tail(args)))
       ELSE LET body == From(a, IF Ch(a, 2) = "-" THEN 3 ELSE 2)
                eq == Find(body, "=")
                name == IF eq > 0 THEN SubSeq(body, 1, eq - 1) ELSE body
                rows == TLCEval(Rows(name))
                row == Table[CHOOSE i \in rows : TRUE]
            IN IF \A i, j \in rows : i = j
               THEN IF rows = {} THEN Refuse(st)
                    ELSE IF row[2] \in Bare THEN IF eq > 0 THEN Refuse(st) ELSE Walk(TLCEval(Take(st, row, "")), TLCEval(Tail(args)))
                    ELSE IF eq > 0 THEN Walk(TLCEval(Take(st, row, From(body, eq + 1))), TLCEval(Tail(args)))
                    ELSE IF Len(args) = 1 THEN Refuse(st)
                    ELSE Walk(TLCEval(Take(st, row, args[2])), TLCEval(Tail(Tail(args))))
               ELSE Refuse(st)

\* the part of a file name after the last slash must not begin with its only dot
Dots(s) == {i \in 1 .. Len(s) : Ch(s, i) = "."}
SlashAt(s) == CHOOSE i \in 0 .. Len(s) : (i > 0 => Ch(s, i) = "/") /\ \A j \in (i + 1) .. Len(s) : Ch(s, j) # "/"
Base(s) == From(s, SlashAt(s) + 1)
Nameless(s) == LET b == Base(s) IN Dots(b) = {1}
Lower(s) == F!Lower(Codes(s))

Plan(args) ==
  LET st == TLCEval(Walk(Start, TLCEval(args))) IN
  IF st.what # "" THEN [what |-> st.what, flags |-> st.flags]
  ELSE IF st.files = <<>> /\ "version" \in st.flags THEN [what |-> "info", flags |-> st.flags]
  ELSE IF Len(st.files) # 1 \/ st.files[1] = "" THEN [what |-> "refuse", flags |-> st.flags]
  ELSE LET f == st.files[1]
           r == IF st.in # "" THEN F!BySuffix(F!Start("in"), Codes(st.in)).fn ELSE F!ByName(F!Start("in"), Codes(f)).fn
           w == IF st.outfmt # "" THEN F!BySuffix(F!Start("out"), Codes(st.outfmt)).fn ELSE F!ByName(F!Start("out"), Codes(st.out)).fn
       IN IF Lower(f) = Lower(st.out) \/ Nameless(f) \/ r = "none" THEN [what |-> "refuse", flags |-> st.flags]
          ELSE [what |-> "convert", flags |-> st.flags, file |-> f, reader |-> r, writer |-> IF w = "none" THEN "eps" ELSE w,
                out |-> st.out, sets |-> st.sets]
=============================================================================

------------------------------ MODULE MCCommand -----------------------------
(***************************************************************************)
(* Command lines of at most MAXU pieces, each added in one of its          *)
(* spellings; plain is the same line with every piece in its first         *)
(* spelling.  Every line is emitted for the replay.                        *)
(***************************************************************************)
EXTENDS CommandLine, TLC, Json
CONSTANTS MAXU, FUSSY
VARIABLES args, plain, used
vars == <<args, plain, used>>

\* the spellings of a piece; all ask for the same
Pieces == <<
  <<<<"a.pbm">>>>, <<<<"c.bmp">>>>, <<<<"bad.png">>>>, <<<<"--">>>>,
  <<<<"-centerline">>, <<"--centerline">>, <<"-ce">>, <<"--cent">>>>,
  <<<<"-preserve-width">>, <<"-p">>, <<"--pres">>>>,
  <<<<"-background-color", "FFFFFF">>, <<"--background-color=ffffff">>, <<"-b", "FfFfFf">>, <<"-back=ffffff">>>>,
  <<<<"-background-color", "xyz">>, <<"-b=FFFFF">>, <<"-b", "GGGGGG">>, <<"-b=">>>>,
  <<<<"-output-file", "new.svg">>, <<"-output-file=new.svg">>, <<"--output-fi", "new.svg">>>>,
  <<<<"-output-file", "A.PBM">>>>, <<<<"-output-file=nodir/x.fig">>>>,
  <<<<"-output-format", "dxf">>, <<"-output-format=DXF">>, <<"--output-fo=dXf">>>>,
  <<<<"-output-format", "xyz">>, <<"-output-format=">>>>,
  <<<<"-input-format", "pnm">>, <<"-i=PPM">>, <<"-input=pbm">>>>,
  <<<<"-input-format", "svg">>, <<"-i=">>>>,
  <<<<"-dpi", "90">>, <<"-dp=90">>, <<"--dpi= 90">>, <<"-dpi=090">>, <<"-dpi=+90x">>>>,
  <<<<"-dpi", "-1">>, <<"-dpi=-7">>>>,
  <<<<"-error-threshold", "0.5">>, <<"-e=.5">>, <<"-error=+0.50">>, <<"-error", "0.500 ">>>>,
  <<<<"-debug-bitmap">>, <<"--debug-b">>>>,
  <<<<"-version">>, <<"-v">>, <<"--vers">>>>,
  <<<<"-help">>, <<"--h">>>>, <<<<"-output">>, <<"-no-such">>, <<"-centerline=1">>, <<"-c">>, <<"--li=3">>>>,
  <<<<"-charcode">>, <<"-charcode">>>>>>
Both(s, t) == plain' = plain \o s /\ args' = args \o t
Init == args = <<>> /\ plain = <<>> /\ used = <<>>
Put == \E k \in 1 .. Len(Pieces) : \E i \in 1 .. Len(Pieces[k]) :
         /\ Len(used) < MAXU
         /\ (i > 1 => \A j \in 1 .. Len(used) : used[j][2] = 1)   \* one respelled piece is enough
         /\ used' = Append(used, <<k, i>>) /\ Both(Pieces[k][1], Pieces[k][i])
Spec == Init /\ [][Put]_vars

Same(p, q) == IF p.what = "convert" /\ q.what = "convert"
              THEN /\ p.file = q.file /\ p.reader = q.reader /\ p.writer = q.writer /\ p.out = q.out /\ p.flags = q.flags
                   /\ DOMAIN p.sets = DOMAIN q.sets /\ \A n \in DOMAIN p.sets : p.sets[n] = q.sets[n]
              ELSE p.what = q.what
\* how a piece is spelled does not matter (unless it is taken for a value or a file)
Spelling == (\A k \in 1 .. (Len(args) - 1) : args[k] \notin {"-charcode", "--"}) => Same(Plan(args), Plan(plain))
\* a line that was refused, or answered, stays so whatever follows, unless what was missing was a value
Decided(a) == Walk(Start, a).what
Sticky == [][Decided(args) # "" /\ args[Len(args)] # "-charcode" => Decided(args') = Decided(args)]_vars
\* giving everything twice changes nothing but for the input name, which may not be repeated
Twice == Plan(args).what = "convert" /\ (\A k \in 1 .. Len(args) : args[k] \notin {"--", "-charcode"})
         => LET a2 == SelectSeq(args, LAMBDA x : x # Plan(args).file) \o args IN Same(Plan(a2), Plan(args))
\* an accepted line never writes onto its input, always has a reader and a writer
Safe == LET p == Plan(args) IN p.what = "convert" => Lower(p.file) # Lower(p.out) /\ p.reader # "none" /\ p.writer # "none"
\* two different pieces may change places unless one of them ends the reading or takes the other for its value
Swap == Len(used) = 2 /\ used[1][1] # used[2][1]
        => LET u == Pieces[used[1][1]][used[1][2]] v == Pieces[used[2][1]][used[2][2]]
           IN (\A w \in {u, v} : w # <<"--">> /\ w # <<"-charcode">>) /\ Decided(u) = "" /\ Decided(v) = ""
              => Same(Plan(u \o v), Plan(v \o u))
\* refuted: any beginning of an option name is understood
Lenient == FUSSY => \A k \in 1 .. Len(args) : Starts(args[k], "-output") => Plan(args).what # "refuse"
Emit == PrintT("ARGV " \o ToJson(args))
=============================================================================

-------------------------------- MODULE Pnm ---------------------------------
(***************************************************************************)
(* Portable any-maps: P1..P3 plain, P4..P6 raw.                            *)
(***************************************************************************)
EXTENDS Bytes
LOCAL INSTANCE SequencesExt
Space == {9, 10, 11, 12, 13, 32}
RECURSIVE EndOfLine(_, _)
EndOfLine(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = 10 THEN i ELSE EndOfLine(b, i + 1)
\* first character that is neither white space nor in a comment
RECURSIVE Skip(_, _)
Skip(b, i) == IF i > Len(b) THEN i
              ELSE IF b[i] \in Space THEN Skip(b, i + 1)
              ELSE IF b[i] = 35 THEN Skip(b, EndOfLine(b, i)) ELSE i
RECURSIVE Stop(_, _)
Stop(b, i) == IF i > Len(b) THEN i ELSE IF b[i] \in Space \union {35} THEN i ELSE Stop(b, i + 1)
RECURSIVE Number(_, _, _, _)
Number(b, i, j, v) == IF i = j THEN v
                      ELSE IF b[i] \notin 48 .. 57 THEN -1
                      ELSE Number(b, i + 1, j, IF v > 70000 THEN v ELSE (10 * v) + b[i] - 48)
\* the number at or after i: its value (-1 none) and the place after it
Token(b, i) == LET k == Skip(b, i) e == Stop(b, k)
               IN IF k = e THEN [v |-> -1, e |-> e] ELSE [v |-> Number(b, k, e, 0), e |-> e]

Scaled(v, max) == (255 * (IF v > max THEN max ELSE v)) \div max
Planes(t) == IF t \in {3, 6} THEN 3 ELSE 1
\* the samples of a plain file: tokens between blanks and comments, one character at a time
Mark(st, ch) ==
  IF st.c THEN [st EXCEPT !.c = ch # 10]
  ELSE IF ch = 35 \/ ch \in Space THEN [c |-> ch = 35, v |-> -1, s |-> IF st.v = -1 THEN st.s ELSE Append(st.s, st.v)]
  ELSE [st EXCEPT !.v = IF ch \notin 48 .. 57 \/ @ = -2 THEN -2 ELSE IF @ = -1 THEN ch - 48 ELSE IF @ > 70000 THEN @ ELSE (10 * @) + ch - 48]
Plain(b, i, n, max) ==
  LET f == FoldLeft(Mark, [c |-> FALSE, v |-> -1, s |-> <<>>], SubSeq(b, i, Len(b)))
      s == IF f.v = -1 THEN f.s ELSE Append(f.s, f.v)
  IN IF Len(s) < n \/ (\E k \in 1 .. n : s[k] < 0) THEN <<>> ELSE [k \in 1 .. n |-> Scaled(s[k], max)]
\* the bits of a plain bitmap need no blanks between them
MarkBit(st, ch) ==
  IF st.c THEN [st EXCEPT !.c = ch # 10]
  ELSE IF ch = 35 THEN [st EXCEPT !.c = TRUE]
  ELSE IF ch \in Space THEN st ELSE [st EXCEPT !.s = Append(@, IF ch = 48 THEN 255 ELSE 0)]
PlainBits(b, i, n) ==
  LET s == FoldLeft(MarkBit, [c |-> FALSE, s |-> <<>>], SubSeq(b, i, Len(b))).s
  IN IF Len(s) < n THEN <<>> ELSE SubSeq(s, 1, n)
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128
RawBits(b, i, w, h) ==
  LET row == (w + 7) \div 8
  IN IF ~Has(b, i, row * h) THEN <<>>
     ELSE [p \in 1 .. w * h |-> LET x == (p - 1) % w y == (p - 1) \div w
                                IN IF (At(b, i + (y * row) + (x \div 8)) \div Pow2(7 - (x % 8))) % 2 = 1 THEN 0 ELSE 255]
Raw(b, i, n, max) == IF ~Has(b, i, n) THEN <<>> ELSE [p \in 1 .. n |-> Scaled(At(b, i + p - 1), max)]
Pixels(np, s) == IF np = 1 THEN [p \in 1 .. Len(s) |-> GreyRGB(s[p])]
                 ELSE [p \in 1 .. Len(s) \div 3 |-> RGB(s[(3 * p) - 2], s[(3 * p) - 1], s[3 * p])]

Decode(b) ==
  IF Len(b) < 2 THEN Short
  ELSE IF b[1] # 80 \/ b[2] \notin 49 .. 54 THEN Bad
  ELSE LET t == b[2] - 48
           w == Token(b, 3)
           h == Token(b, w.e)
           m == IF t \in {1, 4} THEN [v |-> 1, e |-> h.e] ELSE Token(b, h.e)
           n == w.v * h.v * Planes(t)
           s == CASE t = 1 -> PlainBits(b, m.e, n)
                  [] t \in {2, 3} -> Plain(b, m.e, n, m.v)
                  [] t = 4 -> RawBits(b, m.e, w.v, h.v)      \* m.e is the place of the single blank
                  [] OTHER -> Raw(b, m.e, n, m.v)
       IN IF m.e > Len(b) THEN Short
          ELSE IF w.v \notin 1 .. 65535 \/ h.v \notin 1 .. 65535 \/ m.v \notin 1 .. (IF t < 4 THEN 65535 ELSE 255) THEN Bad
          ELSE IF Len(s) # n THEN Short
          ELSE Image(w.v, h.v, Planes(t), Pixels(Planes(t), s))
=============================================================================

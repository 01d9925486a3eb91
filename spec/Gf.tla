-------------------------------- MODULE Gf ----------------------------------
(***************************************************************************)
(* METAFONT's generic fonts: the character locator at the end of the file  *)
(* and the paint program of a character.                                   *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC
\* ---- postamble
RECURSIVE Tail223(_, _)
Tail223(b, i) == IF i < 0 THEN i ELSE IF At(b, i) = 223 THEN Tail223(b, i - 1) ELSE i
RECURSIVE Locs(_, _, _)
Locs(b, i, acc) ==
  IF ~Has(b, i, 1) THEN [ok |-> FALSE, m |-> acc]
  ELSE CASE At(b, i) = 249 -> [ok |-> TRUE, m |-> acc]
         [] At(b, i) = 245 /\ Has(b, i, 18) -> Locs(b, i + 18, (At(b, i + 1) :> M32(b, i + 14)) @@ acc)
         [] At(b, i) = 246 /\ Has(b, i, 11) -> Locs(b, i + 11, (At(b, i + 1) :> M32(b, i + 7)) @@ acc)
         [] OTHER -> [ok |-> FALSE, m |-> acc]

\* ---- specials: xxx1..xxx4 with that many length bytes, yyy, no-op
RECURSIVE SkipSpecials(_, _)
SkipSpecials(b, i) ==
  IF ~Has(b, i, 1) THEN i
  ELSE LET c == At(b, i)
       IN CASE c = 239 /\ Has(b, i, 2) -> SkipSpecials(b, i + 2 + At(b, i + 1))
            [] c = 240 /\ Has(b, i, 3) -> SkipSpecials(b, i + 3 + M16(b, i + 1))
            [] c = 241 /\ Has(b, i, 4) -> SkipSpecials(b, i + 4 + M24(b, i + 1))
            [] c = 242 /\ Has(b, i, 5) -> SkipSpecials(b, i + 5 + M32(b, i + 1))
            [] c = 243 -> SkipSpecials(b, i + 5)
            [] c = 244 -> SkipSpecials(b, i + 1)
            [] OTHER -> i
Operand(b, i, n) == CASE n = 1 -> At(b, i) [] n = 2 -> M16(b, i) [] n = 3 -> M24(b, i)

\* ---- paint program; box: min and max column and row; the ink is a set of <<column, row>>
Failed == [ok |-> FALSE, ink |-> {}]
RECURSIVE Paint(_, _, _, _, _, _, _)
Paint(b, i0, box, col, row, black, ink) ==
  LET i == SkipSpecials(b, i0)
  IN IF ~Has(b, i, 4) THEN Failed                    \* a postamble follows, so there always are some bytes
     ELSE LET c == At(b, i)
          IN CASE c = 69 -> [ok |-> TRUE, ink |-> ink]
               [] c <= 66 -> LET k == IF c <= 63 THEN 0 ELSE c - 63
                                 n == IF c <= 63 THEN c ELSE Operand(b, i + 1, k)
                             IN IF black /\ n > 0 /\ (col < box[1] \/ col + n > box[2] \/ row < box[3]) THEN Failed
                                ELSE Paint(b, i + 1 + k, box, col + n, row, ~black,
                                           IF black THEN ink \union {<<x, row>> : x \in col .. col + n - 1} ELSE ink)
               [] c \in 70 .. 73 -> LET k == c - 70
                                        n == IF k = 0 THEN 0 ELSE Operand(b, i + 1, k)
                                    IN Paint(b, i + 1 + k, box, box[1], row - n - 1, FALSE, ink)
               [] c \in 74 .. 238 -> Paint(b, i + 1, box, box[1] + c - 74, row - 1, TRUE, ink)
               [] OTHER -> Failed
Char(b, p) ==
  LET i == SkipSpecials(b, p)
  IN IF ~Has(b, i, 25) THEN Failed
     ELSE CASE At(b, i) = 67 -> LET box == <<M32(b, i + 9), M32(b, i + 13), M32(b, i + 17), M32(b, i + 21)>>
                                IN Paint(b, i + 25, box, box[1], box[4], FALSE, {})
            [] At(b, i) = 68 -> LET maxc == At(b, i + 3) minc == maxc - At(b, i + 2) maxr == At(b, i + 5) minr == maxr - At(b, i + 4)
                                IN Paint(b, i + 6, <<minc, maxc, minr, maxr>>, minc, maxr, FALSE, {})
            [] OTHER -> Failed
Lo(S) == CHOOSE v \in S : \A u \in S : v <= u
Hi(S) == CHOOSE v \in S : \A u \in S : v >= u
Cropped(ink) ==
  IF ink = {} THEN Image(0, 0, 1, <<>>)
  ELSE LET cs == {p[1] : p \in ink} rs == {p[2] : p \in ink}
           w == Hi(cs) - Lo(cs) + 1 h == Hi(rs) - Lo(rs) + 1
       IN Image(w, h, 1, [p \in 1 .. w * h |-> IF <<Lo(cs) + ((p - 1) % w), Hi(rs) - ((p - 1) \div w)>> \in ink THEN 16777215 ELSE 0])
\* code 0 stands for the first character there is
Decode(b, code) ==
  LET e == Tail223(b, Len(b) - 1)
  IN IF e < 4 THEN Short
     ELSE IF At(b, e) # 131 THEN Bad
     ELSE LET q == M32(b, e - 4)
          IN IF q < 0 \/ ~Has(b, q, 37) THEN Bad
             ELSE IF At(b, q) # 248 THEN Bad
             ELSE LET l == Locs(b, q + 37, <<>>)
                      there == {c \in DOMAIN l.m : l.m[c] >= 0}
                      c == IF code = 0 /\ there # {} THEN Lo(there) ELSE code
                  IN IF ~l.ok \/ c \notin there THEN Bad
                     ELSE LET r == Char(b, l.m[c]) IN IF r.ok THEN Cropped(r.ink) ELSE Bad
=============================================================================

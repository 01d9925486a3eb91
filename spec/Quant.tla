-------------------------------- MODULE Quant -------------------------------
(***************************************************************************)
(* Colour reduction.  Colours fall into cells of 2x2x2 sample values.  A   *)
(* box is a range of cells per channel, always shrunk to the used cells    *)
(* in it.  Starting with one box, the box with the longest diagonal is     *)
(* halved along its longest side until there are N boxes or every box is   *)
(* one cell.  The palette colour of a box is the mean of its pixels (cell  *)
(* centres), and each pixel gets the palette colour nearest to the centre  *)
(* of its cell, where red counts twice and green three times.  Pixels that *)
(* share the palette colour of the background become background.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxColours == 256
ChanR(v) == v \div 65536
ChanG(v) == (v \div 256) % 256
ChanB(v) == v % 256
Cell(v) == <<ChanR(v) \div 2, ChanG(v) \div 2, ChanB(v) \div 2>>
Centre(k) == <<2 * k[1] + 1, 2 * k[2] + 1, 2 * k[3] + 1>>

\* the pixels as a function from used cells to their number of pixels
RECURSIVE Counted(_, _, _)
Counted(px, i, f) ==
  IF i > Len(px) THEN f
  ELSE LET k == Cell(px[i])
       IN Counted(px, i + 1, IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE f @@ (k :> 1))
Histogram(px) == Counted(px, 1, <<>>)

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

\* a box is the set of used cells it holds
Lo(b, c) == Least({k[c] : k \in b})
Hi(b, c) == Most({k[c] : k \in b})
Span(b, c) == Hi(b, c) - Lo(b, c)
Diagonal(b) == Span(b, 1) * Span(b, 1) + Span(b, 2) * Span(b, 2) + Span(b, 3) * Span(b, 3)
\* green wins ties, blue loses them
Axis(b) == LET r == Span(b, 1) g == Span(b, 2) l == Span(b, 3)
           IN IF r > g THEN (IF l > r THEN 3 ELSE 1) ELSE IF l > g THEN 3 ELSE 2
Halves(b) == LET a == Axis(b)
                 m == (Lo(b, a) + Hi(b, a)) \div 2
             IN <<{k \in b : k[a] <= m}, {k \in b : k[a] > m}>>
Splittable(bs) == {i \in 1 .. Len(bs) : Diagonal(bs[i]) > 0}
\* the longest diagonal, the oldest of those
NextBox(bs) == LET d == TLCEval([i \in 1 .. Len(bs) |-> Diagonal(bs[i])])
                   m == Most({d[i] : i \in 1 .. Len(bs)})
               IN Least({i \in 1 .. Len(bs) : d[i] = m})
Split(bs) == LET i == NextBox(bs) h == Halves(bs[i])
             IN Append([bs EXCEPT ![i] = h[1]], h[2])
CanSplit(bs, n) == Len(bs) < n /\ \E i \in 1 .. Len(bs) : Diagonal(bs[i]) > 0
RECURSIVE Cut(_, _)
Cut(bs, n) == IF CanSplit(bs, n) THEN Cut(Split(bs), n) ELSE bs

RECURSIVE SumOver(_, _, _)
SumOver(S, f, c) == IF S = {} THEN 0
                    ELSE LET k == CHOOSE k \in S : TRUE
                         IN f[k] * (IF c = 0 THEN 1 ELSE Centre(k)[c]) + SumOver(S \ {k}, f, c)
Mean(b, f) == LET n == SumOver(b, f, 0)
              IN [c \in 1 .. 3 |-> (SumOver(b, f, c) + (n \div 2)) \div n]

Palette(px, n) ==
  LET f == Histogram(px)
      bs == Cut(<<DOMAIN f>>, IF n > MaxColours THEN MaxColours ELSE n)
  IN [i \in 1 .. Len(bs) |-> Mean(bs[i], f)]

Dist(p, q) == 4 * (p[1] - q[1]) * (p[1] - q[1]) + 9 * (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
\* the palette colours nearest to a cell: a set, because ties are open
Nearest(pal, k) == LET ds == {Dist(pal[i], Centre(k)) : i \in 1 .. Len(pal)}
                       m == Least(ds)
                   IN {pal[i] : i \in {j \in 1 .. Len(pal) : Dist(pal[j], Centre(k)) = m}}

Rgb(p) == 65536 * p[1] + 256 * p[2] + p[3]
\* what a pixel of colour v may become; e is the palette colour of the background (bg = -1: none)
Becomes(pal, v, bg, bgout, e) ==
  {IF bg >= 0 /\ p = e THEN bgout ELSE Rgb(p) : p \in Nearest(pal, Cell(v))}

\* a grey image can only hold the first channel of the background
BgOut(np, bg) == IF np = 1 THEN 65793 * ChanR(bg) ELSE bg

Reductions(px, np, n, bg, out) ==
  LET pal == Palette(px, n)
      used == {<<px[i], out[i]>> : i \in 1 .. Len(px)}
  IN IF bg < 0 THEN \A u \in used : u[2] \in Becomes(pal, u[1], bg, 0, <<>>)
     ELSE \E e \in Nearest(pal, Cell(bg)) : \A u \in used : u[2] \in Becomes(pal, u[1], bg, BgOut(np, bg), e)

\* the guarantees
Colours(s) == {s[i] : i \in 1 .. Len(s)}
AtMost(n, out, bg, np) == Cardinality(Colours(out) \ (IF bg >= 0 THEN {BgOut(np, bg)} ELSE {})) <= n
SameToSame(px, out) == \A i, j \in 1 .. Len(px) : Cell(px[i]) = Cell(px[j]) => out[i] = out[j]
BgStays(px, out, bg, np) == bg >= 0 /\ BgOut(np, bg) = bg => \A i \in 1 .. Len(px) : px[i] = bg => out[i] = bg
\* few colours: told apart before, told apart after
Separated(px, out, n, bg) ==
  Cardinality({Cell(px[i]) : i \in 1 .. Len(px)}) <= n =>
    /\ \A i, j \in 1 .. Len(px) : Cell(px[i]) # Cell(px[j]) /\ bg < 0 => out[i] # out[j]
    /\ bg < 0 => \A i \in 1 .. Len(px) : Cell(out[i]) = Cell(px[i])
=============================================================================

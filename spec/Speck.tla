------------------------------- MODULE Speck --------------------------------
(***************************************************************************)
(* Despeckling.  Pass i looks at the regions (4-connected, one colour) in  *)
(* reading order and gives every region of fewer than 2^i pixels the       *)
(* touching colour most similar to its own, unless even that one is too    *)
(* different.                                                              *)
(***************************************************************************)
EXTENDS Raster

Places(im) == 1 .. (im.w * im.h)
RowOf(im, k) == (k - 1) \div im.w
ColOf(im, k) == (k - 1) % im.w
Next4(im, k) ==
  (IF ColOf(im, k) > 0 THEN {k - 1} ELSE {}) \union
  (IF ColOf(im, k) < im.w - 1 THEN {k + 1} ELSE {}) \union
  (IF k > im.w THEN {k - im.w} ELSE {}) \union
  (IF k + im.w <= im.w * im.h THEN {k + im.w} ELSE {})
RECURSIVE Flood(_, _, _, _)
Flood(im, px, seen, edge) ==
  IF edge = {} THEN seen
  ELSE LET nxt == {q \in UNION {Next4(im, k) : k \in edge} : q \notin seen /\ px[q] = px[CHOOSE k \in edge : TRUE]}
       IN Flood(im, px, seen \union nxt, nxt)
Region(im, px, k) == Flood(im, px, {k}, {k})
RECURSIVE RegionsIn(_, _, _)
RegionsIn(im, px, todo) ==
  IF todo = {} THEN {}
  ELSE LET r == Region(im, px, CHOOSE k \in todo : TRUE) IN {r} \union RegionsIn(im, px, todo \ r)
Regions(im, px) == RegionsIn(im, px, Places(im))
Round(im, r) == UNION {Next4(im, k) : k \in r} \ r
TouchingColours(im, px, r) == {px[k] : k \in Round(im, r)}

Sq(x) == x * x
Difference(np, a, b) == IF np = 1 THEN Abs((a % 256) - (b % 256))
                        ELSE Sq(Channel(a, 1) - Channel(b, 1)) + Sq(Channel(a, 2) - Channel(b, 2)) + Sq(Channel(a, 3) - Channel(b, 3))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* the level actually used: at most log2 of the number of pixels less 1/2  *)
RECURSIVE Log2Less(_, _)
Log2Less(n, l) == IF l < 14 /\ Pow2(2 * (l + 1) + 1) <= Sq(n) THEN Log2Less(n, l + 1) ELSE l
UsedLevel(im, level) == Min(level, Log2Less(im.w * im.h, 0))
(* how different a colour may be in pass i; tightness and noise removal in *)
(* hundredths                                                              *)
Tight(L, tight, noise, i) == (255 * noise * L * 100) \div (L * 10000 + i * (noise * (100 + tight * L) - 10000))
Limit(np, L, tight, noise, i) == LET t == Tight(L, tight, noise, i) IN IF np = 1 THEN t ELSE 3 * t * t

(* the colours a region may take (more than one only in a tie), {} if none *)
Takes(im, np, px, r, limit) ==
  LET own == px[CHOOSE k \in r : TRUE]
      near == TouchingColours(im, px, r)
      best == {c \in near : \A d \in near : Difference(np, own, c) <= Difference(np, own, d)}
  IN {c \in best : Difference(np, own, c) <= limit}

(* the whole, when no tie can occur *)
RECURSIVE PassFrom(_, _, _, _, _, _, _)
PassFrom(im, np, px, i, limit, k, seen) ==
  IF k > im.w * im.h THEN px
  ELSE IF k \in seen THEN PassFrom(im, np, px, i, limit, k + 1, seen)
  ELSE LET r == Region(im, px, k)
           t == IF Cardinality(r) < Pow2(i) THEN Takes(im, np, px, r, limit) ELSE {}
       IN IF t = {} THEN PassFrom(im, np, px, i, limit, k + 1, seen \union r)
          ELSE LET c == CHOOSE c \in t : TRUE
                   q == [j \in Places(im) |-> IF j \in r THEN c ELSE px[j]]
               IN PassFrom(im, np, q, i, limit, k + 1, seen \union r)
RECURSIVE PassesFrom(_, _, _, _, _, _, _)
PassesFrom(im, np, px, L, tight, noise, i) ==
  IF i >= L THEN px
  ELSE PassesFrom(im, np, PassFrom(im, np, px, i, Limit(np, L, tight, noise, i), 1, {}), L, tight, noise, i + 1)
Despeckled(im, np, level, tight, noise) ==
  LET L == UsedLevel(im, level) IN PassesFrom(im, np, im.px, L, tight, noise, 0)
TieFree(np, cols) == \A a, b, c \in cols : (a # b /\ a # c /\ b # c) => Difference(np, a, b) # Difference(np, a, c)

-----------------------------------------------------------------------------
(* What holds of every result, ties or not.                                *)
NoNewColour(im, px) == {px[k] : k \in Places(im)} \subseteq {im.px[k] : k \in Places(im)}
WholeSpecks(im, px) == \A r \in Regions(im, im.px) : \A j, k \in r : px[j] = px[k]
BigStay(im, px, L) == L > 0 => \A r \in Regions(im, im.px) : Cardinality(r) >= Pow2(L - 1) => \A k \in r : px[k] = im.px[k]
Rooted(im, px) == \A r \in Regions(im, px) : \E k \in r : px[k] = im.px[k]
NoSmallLeft(im, px, L) == L > 0 => LET rs == Regions(im, px) IN Cardinality(rs) = 1 \/ \A r \in rs : Cardinality(r) >= Pow2(L - 1)
=============================================================================

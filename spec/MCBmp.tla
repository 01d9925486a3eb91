------------------------------- MODULE MCBmp --------------------------------
(***************************************************************************)
(* Writes a picture as a run-length coded BMP file, free to choose at each *)
(* step an encoded run, an absolute run, an end of line, a delta or the    *)
(* end of the bitmap, as long as the pixels come out right; pixels never   *)
(* written are 0.                                                          *)
(***************************************************************************)
EXTENDS Bmp
CONSTANTS W, H, BPP, VALS, STEPS
VARIABLES pic, x, y, body, stage, n
vars == <<pic, x, y, body, stage, n>>
\* pic: y*W + x -> index, y from the bottom
Init == pic \in [0 .. (W * H) - 1 -> VALS] /\ x = 0 /\ y = 0 /\ body = <<>> /\ stage = "body" /\ n = 0
P(u, v) == pic[(v * W) + u]
\* what is left of the row, and rows below v, must be zero to be skipped
RestZero(u, v) == \A k \in u .. W - 1 : P(k, v) = 0
Here == stage = "body" /\ y < H /\ n < STEPS
Tick == n' = n + 1 /\ UNCHANGED <<pic, stage>>
Run == /\ Here /\ \E len \in 1 .. W - x :
            /\ IF BPP = 8 THEN \A k \in 1 .. len - 1 : P(x + k, y) = P(x, y)
                          ELSE \A k \in 2 .. len - 1 : P(x + k, y) = P(x + k - 2, y)
            /\ body' = body \o <<len, IF BPP = 8 THEN P(x, y) ELSE (16 * P(x, y)) + (IF len > 1 THEN P(x + 1, y) ELSE 15)>>
            /\ x' = x + len /\ UNCHANGED y
       /\ Tick
Literal == /\ Here /\ \E len \in 3 .. W - x :
                /\ body' = body \o <<0, len>>
                     \o [k \in 1 .. AbsBytes([bpp |-> BPP], len) |->
                           IF BPP = 8 THEN IF k <= len THEN P(x + k - 1, y) ELSE 1
                           ELSE LET a == 2 * (k - 1) IN (16 * (IF a < len THEN P(x + a, y) ELSE 9)) + (IF a + 1 < len THEN P(x + a + 1, y) ELSE 7)]
                /\ x' = x + len /\ UNCHANGED y
           /\ Tick
Line == /\ Here /\ RestZero(x, y) /\ body' = body \o <<0, 0>> /\ x' = 0 /\ y' = y + 1 /\ Tick
Delta == /\ Here /\ \E dx \in 0 .. W - x, dy \in 0 .. 1 :
              /\ dx + dy > 0 /\ y + dy < H
              /\ IF dy = 0 THEN \A k \in x .. x + dx - 1 : P(k, y) = 0
                 ELSE RestZero(x, y) /\ \A k \in 0 .. x + dx - 1 : P(k, y + 1) = 0
              /\ body' = body \o <<0, 2, dx, dy>> /\ x' = x + dx /\ y' = y + dy
         /\ Tick
Stop == /\ stage = "body" /\ (IF y >= H THEN TRUE ELSE RestZero(x, y) /\ \A v \in y + 1 .. H - 1 : RestZero(0, v))
        /\ body' = body \o <<0, 1>> /\ stage' = "done" /\ UNCHANGED <<pic, x, y, n>>
Next == Run \/ Literal \/ Line \/ Delta \/ Stop
Spec == Init /\ [][Next]_vars
Pal(i) == <<(i * 37) % 256, (i * 91 + 5) % 256, (i * 53 + 11) % 256, 0>>
RECURSIVE Palette(_)
Palette(k) == IF k = 4 THEN <<>> ELSE Pal(k) \o Palette(k + 1)
Le(v) == <<v % 256, v \div 256, 0, 0>>
File == <<66, 77>> \o Le(70 + Len(body)) \o Le(0) \o Le(70) \o Le(40) \o Le(W) \o Le(H) \o <<1, 0, BPP, 0>>
        \o Le(IF BPP = 8 THEN 1 ELSE 2) \o Le(Len(body)) \o Le(0) \o Le(0) \o Le(4) \o Le(0) \o Palette(0) \o body
RoundTrip == stage = "done" =>
  Decode(File) = Image(W, H, 3, [p \in 1 .. W * H |-> LET c == Pal(P((p - 1) % W, H - 1 - ((p - 1) \div W))) IN RGB(c[3], c[2], c[1])])
CutShort == stage = "body" /\ y < H => Decode(File).short
Emit == stage = "done" => PrintT(<<"FILE", File>>)
=============================================================================

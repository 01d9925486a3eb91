------------------------------- MODULE MCGf ---------------------------------
(***************************************************************************)
(* Writes a character with any sequence of paint, skip, new-row, no-op and *)
(* special commands; the pen keeps track of what has been inked.           *)
(***************************************************************************)
EXTENDS Gf
CONSTANTS W, H, STEPS, BOC1
VARIABLES prog, col, row, black, ink, n, stage
vars == <<prog, col, row, black, ink, n, stage>>
MinC == IF BOC1 = 1 THEN 1 ELSE -2
MinR == IF BOC1 = 1 THEN 0 ELSE -1
MaxR == MinR + H - 1
Init == prog = <<>> /\ col = MinC /\ row = MaxR /\ black = FALSE /\ ink = {} /\ n = 0 /\ stage = "body"
On == stage = "body" /\ n < STEPS /\ n' = n + 1 /\ UNCHANGED stage
PaintN == /\ On /\ \E k \in 0 .. MinC + W - col, long \in {0, 1, 2, 3} :
               /\ prog' = prog \o (CASE long = 0 -> <<k>> [] long = 1 -> <<64, k>> [] long = 2 -> <<65, 0, k>> [] OTHER -> <<66, 0, 0, k>>)
               /\ ink' = IF black THEN ink \union {<<x, row>> : x \in col .. col + k - 1} ELSE ink
               /\ col' = col + k /\ black' = ~black /\ UNCHANGED row
SkipN == /\ On /\ \E k \in 0 .. H - 1, long \in {0, 1, 2} :
              /\ row - k - 1 >= MinR
              /\ (k = 0 \/ long > 0)
              /\ prog' = prog \o (CASE long = 0 -> <<70>> [] long = 1 -> <<71, k>> [] OTHER -> <<72, 0, k>>)
              /\ row' = row - k - 1 /\ col' = MinC /\ black' = FALSE /\ UNCHANGED ink
NewRow == /\ On /\ row > MinR /\ \E k \in 0 .. W - 1 : prog' = Append(prog, 74 + k) /\ col' = MinC + k
          /\ row' = row - 1 /\ black' = TRUE /\ UNCHANGED ink
\* a no-op, or a special whose text looks like commands
Other == /\ On /\ \E s \in {<<244>>, <<239, 2, 69, 74>>, <<243, 64, 5, 69, 1>>, <<240, 0, 1, 69>>, <<242, 0, 0, 0, 1, 9>>} : prog' = prog \o s
         /\ UNCHANGED <<col, row, black, ink>>
Done == stage = "body" /\ stage' = "done" /\ UNCHANGED <<prog, col, row, black, ink, n>>
Next == PaintN \/ SkipN \/ NewRow \/ Other \/ Done
Spec == Init /\ [][Next]_vars
B4(v) == IF v < 0 THEN <<255, 255, 255, 256 + v>> ELSE <<0, 0, v \div 256, v % 256>>
Code == 65
Boc == IF BOC1 = 1 THEN <<68, Code, W, MinC + W, H - 1, MaxR>>
       ELSE <<67>> \o B4(Code) \o B4(-1) \o B4(MinC) \o B4(MinC + W) \o B4(MinR) \o B4(MaxR)
Pre == <<247, 131, 0>> \o Boc \o prog \o <<69>>
File == Pre \o <<248>> \o B4(0) \o <<0, 160, 0, 0>> \o B4(0) \o <<0, 1, 0, 0, 0, 1, 0, 0>> \o B4(0) \o B4(9) \o B4(0) \o B4(9)
        \o (IF BOC1 = 1 THEN <<246, Code, 5>> \o B4(0) \o B4(3) ELSE <<245, Code>> \o B4(5) \o B4(0) \o B4(0) \o B4(3))
        \o <<249>> \o B4(Len(Pre)) \o <<131, 223, 223, 223, 223>>
RoundTrip == stage = "done" => Decode(File, Code) = Cropped(ink) /\ Decode(File, 0) = Cropped(ink) /\ ~Decode(File, 66).ok
Emit == stage = "done" => PrintT(<<"FILE", File>>)
=============================================================================

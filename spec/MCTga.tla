------------------------------- MODULE MCTga --------------------------------
(***************************************************************************)
(* Writes a picture as a run-length coded TGA file in any packetisation    *)
(* and from any corner.                                                    *)
(***************************************************************************)
EXTENDS Tga, TLC
CONSTANTS W, H, KIND, ALPHA, VALS
VARIABLES pic, corner, k, body, stage
vars == <<pic, corner, k, body, stage>>
N == W * H
Init == pic \in [1 .. N -> VALS] /\ corner \in {0, 16, 32, 48} /\ k = 0 /\ body = <<>> /\ stage = "body"
\* the k-th stored pixel (from 0)
Put(j) == LET x == j % W y == j \div W
              u == IF corner \in {16, 48} THEN W - 1 - x ELSE x
              v == IF corner \in {32, 48} THEN y ELSE H - 1 - y
          IN pic[(v * W) + u + 1]
Bytes3(v) == CASE KIND = 2 -> <<v, (v + 100) % 256, (v + 200) % 256>> [] KIND = 3 -> <<v>> [] OTHER -> <<v % 4>>
Coded(v) == IF ALPHA THEN Append(Bytes3(v), 77) ELSE Bytes3(v)
RECURSIVE Lit(_, _)
Lit(j, n) == IF n = 0 THEN <<>> ELSE Coded(Put(j)) \o Lit(j + 1, n - 1)
Run == /\ stage = "body" /\ \E n \in 1 .. N - k :
            /\ \A j \in 1 .. n - 1 : Put(k + j) = Put(k)
            /\ body' = Append(body, 127 + n) \o Coded(Put(k)) /\ k' = k + n
       /\ UNCHANGED <<pic, corner, stage>>
Literal == /\ stage = "body" /\ \E n \in 1 .. N - k : body' = Append(body, n - 1) \o Lit(k, n) /\ k' = k + n
           /\ UNCHANGED <<pic, corner, stage>>
Stop == stage = "body" /\ k = N /\ stage' = "done" /\ UNCHANGED <<pic, corner, k, body>>
Next == Run \/ Literal \/ Stop
Spec == Init /\ [][Next]_vars
Unit8 == CASE KIND = 2 -> 24 [] OTHER -> 8
Map == IF KIND # 1 THEN <<>> ELSE <<1, 2, 3, 40, 50, 60, 250, 240, 230>>
File == <<2, IF KIND = 1 THEN 1 ELSE 0, 8 + KIND, IF KIND = 1 THEN 1 ELSE 0, 0, IF KIND = 1 THEN 3 ELSE 0, 0, IF KIND = 1 THEN 24 ELSE 0, 0, 0, 0, 0, W, 0, H, 0,
          Unit8 + (IF ALPHA THEN 8 ELSE 0), corner + (IF ALPHA THEN 8 ELSE 0), 105, 100>> \o Map \o body
Colour(v) == CASE KIND = 2 -> RGB((v + 200) % 256, (v + 100) % 256, v) [] KIND = 3 -> GreyRGB(v)
               [] OTHER -> IF v % 4 = 0 THEN 0 ELSE LET m == 3 * ((v % 4) - 1) IN RGB(Map[m + 3], Map[m + 2], Map[m + 1])
RoundTrip == stage = "done" => Decode(File) = Image(W, H, 3, [p \in 1 .. N |-> Colour(pic[p])])
CutShort == k < N => Decode(File).short
Emit == stage = "done" => PrintT(<<"FILE", File>>)
=============================================================================

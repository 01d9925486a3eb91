------------------------------- MODULE MCPng --------------------------------
(***************************************************************************)
(* Writes the rows of a picture of bytes, each with a filter of its choice.*)
(* A filter subtracts the prediction made from the original bytes to the   *)
(* left and above; Rows recovers the picture.                              *)
(***************************************************************************)
EXTENDS Png
CONSTANTS N, H, STEP, VALS      \* bytes per row, rows, bytes per pixel
VARIABLES pic, y, raw
vars == <<pic, y, raw>>
Init == pic \in [1 .. H -> [1 .. N -> VALS]] /\ y = 1 /\ raw = <<>>
Orig(r, k) == IF r < 1 \/ k < 1 THEN 0 ELSE pic[r][k]
Write(f) == /\ y <= H
            /\ raw' = Append(raw, f) \o [k \in 1 .. N |->
                 (pic[y][k] + 256 - Predict(f, Orig(y, k - STEP), Orig(y - 1, k), Orig(y - 1, k - STEP))) % 256]
            /\ y' = y + 1 /\ UNCHANGED pic
None == Write(0)
Left == Write(1)
Above == Write(2)
Average == Write(3)
PaethF == Write(4)
Next == None \/ Left \/ Above \/ Average \/ PaethF
Spec == Init /\ [][Next]_vars
RoundTrip == Rows(raw, 0, y - 1, N, STEP, <<>>, <<>>) = [r \in 1 .. y - 1 |-> [k \in 1 .. N |-> pic[r][k]]]
InRange == \A k \in 1 .. Len(raw) : raw[k] \in 0 .. 255
\* every pixel belongs to exactly one interlace pass, and the passes have as many pixels as the picture
Partition == \A w \in 1 .. 9, h \in 1 .. 9 :
  /\ \A x \in 0 .. w - 1, v \in 0 .. h - 1 :
       \E k \in 1 .. 7 : LET In(j) == x >= Adam7[j][1] /\ (x - Adam7[j][1]) % Adam7[j][3] = 0 /\ v >= Adam7[j][2] /\ (v - Adam7[j][2]) % Adam7[j][4] = 0
                         IN In(k) /\ \A j \in 1 .. 7 : In(j) => j = k
  /\ LET RECURSIVE Sum(_) Sum(k) == IF k > 7 THEN 0 ELSE (Across(Adam7[k], w) * Down(Adam7[k], h)) + Sum(k + 1) IN Sum(1) = w * h
ASSUME Partition
Emit == y > H => PrintT(<<"FILE", raw>>)
=============================================================================

------------------------------- MODULE MCPnm --------------------------------
(***************************************************************************)
(* A writer of portable any-maps that is free to choose type, size,        *)
(* maximum value, separators, padding bits and samples, writing one piece  *)
(* per step.  Whatever it writes, Decode gives back what it had in mind.   *)
(***************************************************************************)
EXTENDS Pnm, TLC
CONSTANTS SIZES,        \* {101, 201}: 100*w + h
          MAXVALS, SEPS \* indices into Separators
VARIABLES file, type, w, h, max, hsep, bsep, img, stage
vars == <<file, type, w, h, max, hsep, bsep, img, stage>>
Separators == <<<<32>>, <<10>>, <<9, 13, 10>>, <<32, 35, 32, 49, 10>>, <<35, 35, 10, 12>>, <<10, 35, 10, 32>>>>
Digits(n) == IF n < 10 THEN <<48 + n>>
             ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
             ELSE IF n < 1000 THEN <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
             ELSE <<48 + (n \div 10000), 48 + ((n \div 1000) % 10), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Init == /\ file = <<>> /\ img = <<>> /\ stage = "magic"
        /\ type \in 1 .. 6 /\ \E s \in SIZES : w = s \div 100 /\ h = s % 100
        /\ max \in (IF type \in {1, 4} THEN {1} ELSE IF type > 4 THEN {m \in MAXVALS : m <= 255} ELSE MAXVALS)
        /\ hsep \in SEPS /\ bsep \in (IF type <= 3 THEN SEPS ELSE {1})
Keep == UNCHANGED <<type, w, h, max, hsep, bsep>>
Magic == stage = "magic" /\ file' = <<80, 48 + type>> /\ stage' = "size" /\ UNCHANGED img /\ Keep
Size == stage = "size" /\ file' = file \o Separators[hsep] \o Digits(w) \o Separators[bsep] \o Digits(h) /\ UNCHANGED img
        /\ stage' = (IF type \in {1, 4} THEN "blank" ELSE "max") /\ Keep
Max == stage = "max" /\ file' = file \o Separators[hsep] \o Digits(max) /\ stage' = "blank" /\ UNCHANGED img /\ Keep
Blank == stage = "blank" /\ stage' = "body" /\ UNCHANGED img /\ Keep
         /\ IF type <= 3 THEN file' = file \o Separators[bsep] ELSE \E c \in {10, 32} : file' = Append(file, c)
Count == w * h * Planes(type)
Values == IF type \in {1, 4} THEN {0, 1} ELSE IF type < 4 THEN {0, max} \union {max \div 2} ELSE {v \in {10, 35, max} : v <= max}
Want(v) == IF type \in {1, 4} THEN 255 * (1 - v) ELSE (v * 255) \div max
Sample == /\ stage = "body" /\ Len(img) < Count /\ type # 4 /\ Keep /\ UNCHANGED stage
          /\ \E v \in Values :
               /\ img' = Append(img, Want(v))
               /\ file' = file \o (CASE type = 1 -> IF Len(img) % 3 = 0 THEN <<48 + v>> ELSE Separators[bsep] \o <<48 + v>>
                                     [] type \in {2, 3} -> Digits(v) \o Separators[bsep]
                                     [] OTHER -> <<v>>)
Row == /\ stage = "body" /\ Len(img) < Count /\ type = 4 /\ Keep /\ UNCHANGED stage /\ w <= 8
       /\ \E bits \in [1 .. w -> 0 .. 1], pad \in {0, 1} :
            /\ img' = img \o [x \in 1 .. w |-> 255 * (1 - bits[x])]
            /\ file' = Append(file, LET RECURSIVE S(_)
                                        S(k) == IF k > 8 THEN 0 ELSE Pow2(8 - k) * (IF k <= w THEN bits[k] ELSE pad) + S(k + 1)
                                    IN S(1))
End == stage = "body" /\ Len(img) = Count /\ stage' = "done" /\ UNCHANGED <<file, img>> /\ Keep
Next == Magic \/ Size \/ Max \/ Blank \/ Sample \/ Row \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RoundTrip == stage = "done" => Decode(file) = Image(w, h, Planes(type), Pixels(Planes(type), img))
\* no unfinished file passes for an image, unless only the closing separator is missing
NoPrefix == stage \in {"magic", "size", "max"} => Decode(file).short
Ends == <>(stage = "done")
Emit == stage = "done" => PrintT(<<"FILE", file>>)
=============================================================================

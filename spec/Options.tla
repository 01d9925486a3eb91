------------------------------ MODULE Options -------------------------------
(***************************************************************************)
(* Option objects as values.  An object has a kind and a value for every   *)
(* option of that kind; values are texts, a colour is "r,g,b" or "none".   *)
(* State: a function from slots to objects.  Kinds cf, ci, co: objects of  *)
(* the C interface (fitting, input, output); F, I, O: their counterparts   *)
(* in the wrapper; P: the triple handed to a conversion.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt

Unsigned == {"charcode", "color_count", "corner_surround", "filter_iterations", "tangent_surround", "despeckle_level"}
Decimal == {"corner_always_threshold", "corner_threshold", "error_threshold", "line_reversion_threshold", "line_threshold",
            "despeckle_tightness", "noise_removal", "width_weight_factor"}
Boolean == {"remove_adjacent_corners", "remove_knees", "centerline", "preserve_width"}
FitNames == {"background_color"} \union Unsigned \union Decimal \union Boolean

FitDefault(bg, surround, iterations) ==
     ("background_color" :> bg) @@ ("charcode" :> "0") @@ ("color_count" :> "0")
  @@ ("corner_always_threshold" :> "60") @@ ("corner_surround" :> surround) @@ ("corner_threshold" :> "100")
  @@ ("error_threshold" :> "2") @@ ("filter_iterations" :> iterations)
  @@ ("line_reversion_threshold" :> "0.00999999978") @@ ("line_threshold" :> "1")
  @@ ("remove_adjacent_corners" :> "0") @@ ("remove_knees" :> "0") @@ ("tangent_surround" :> "3")
  @@ ("despeckle_level" :> "0") @@ ("despeckle_tightness" :> "2") @@ ("noise_removal" :> "0.99000001")
  @@ ("centerline" :> "0") @@ ("preserve_width" :> "0") @@ ("width_weight_factor" :> "6")
InDefault(bg) == ("background_color" :> bg) @@ ("charcode" :> "0")
OutDefault == [dpi |-> "72"]
Default(kind) == CASE kind = "cf" -> FitDefault("none", "4", "4")
                   [] kind = "F" -> FitDefault("0,0,0", "4", "4")
                   [] kind = "ci" -> InDefault("none")
                   [] kind = "I" -> InDefault("0,0,0")
                   [] kind \in {"co", "O"} -> OutDefault

Set(val, f, v) == [val EXCEPT ![f] = v]
\* one member of a JSON object: [f, ty, v]; a colour has [f, ty, parts]
InByte(n) == n >= 0 /\ n <= 255
Comp(parts, name) == {i \in 1 .. Len(parts) : parts[i].f = name /\ parts[i].ty = "number"}
GoodColour(m) == /\ m.ty = "object"
                 /\ \A name \in {"red", "green", "blue"} :
                      \E i \in Comp(m.parts, name) : InByte(m.parts[i].n)
ColourOf(m) == LET n(name) == ToString(m.parts[CHOOSE i \in Comp(m.parts, name) : TRUE].n)
               IN n("red") \o "," \o n("green") \o "," \o n("blue")
Read(val, m) ==
  IF m.f \notin DOMAIN val THEN val
  ELSE IF m.f = "background_color" THEN IF GoodColour(m) THEN Set(val, m.f, ColourOf(m)) ELSE val
  ELSE IF m.f \in Boolean THEN IF m.ty = "bool" THEN Set(val, m.f, m.v) ELSE val
  ELSE IF m.ty = "number" THEN Set(val, m.f, m.v) ELSE val
FromJson(kind, members) == FoldLeft(Read, Default(kind), members)
Build(kind, sets) == FoldLeft(LAMBDA val, m : Set(val, m.f, m.v), Default(kind), sets)
Prefix(p, val) == [g \in {p \o f : f \in DOMAIN val} |-> val[CHOOSE f \in DOMAIN val : p \o f = g]]
Pack(f, i, o) == Prefix("f_", f) @@ Prefix("i_", i) @@ Prefix("o_", o)

Obj(kind, val) == [kind |-> kind, val |-> val]
Put(st, s, o) == [x \in DOMAIN st \union {s} |-> IF x = s THEN o ELSE st[x]]
Without(st, s) == [x \in DOMAIN st \ {s} |-> st[x]]
Do(st, o) ==
  CASE o.op = "new" -> Put(st, o.s, Obj(o.kind, IF o.kind = "cf" THEN o.base ELSE Default(o.kind)))
    [] o.op = "copy" -> Put(st, o.t, st[o.s])
    [] o.op = "asg" -> Put(st, o.t, st[o.s])
    [] o.op = "set" -> Put(st, o.s, Obj(st[o.s].kind, Set(st[o.s].val, o.f, o.v)))
    [] o.op = "bld" -> Put(st, o.s, Obj(o.kind, Build(o.kind, o.sets)))
    [] o.op = "json" -> Put(st, o.t, st[o.s])
    [] o.op = "from" -> IF o.top THEN Put(st, o.s, Obj(o.kind, FromJson(o.kind, o.members))) ELSE st
    [] o.op = "pack" -> Put(st, o.s, Obj("P", Pack(st[o.a].val, st[o.b].val, st[o.c].val)))
    [] o.op = "free" -> Without(st, o.s)
=============================================================================

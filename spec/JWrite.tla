------------------------------- MODULE JWrite -------------------------------
(***************************************************************************)
(* Verdicts on written files: t.fmt names the format, t.toks or t.b is the *)
(* file, the rest the tracing result it was written from.                  *)
(***************************************************************************)
EXTENDS Judge
INSTANCE Pen
M == INSTANCE Meta

Text == {"svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "fig", "mif", "er", "pov", "ugs", "dxf"}
Draws(t) ==
  CASE t.fmt = "svg" -> SvgDraws(t) [] t.fmt \in {"eps", "ai"} -> EpsDraws(t) [] t.fmt = "p2e" -> P2eDraws(t) [] t.fmt = "pdf" -> PdfDraws(t)
    [] t.fmt = "epd" -> EpdDraws(t) [] t.fmt = "sk" -> SkDraws(t) [] t.fmt = "fig" -> FigDraws(t) [] t.fmt = "mif" -> MifDraws(t)
    [] t.fmt = "er" -> ErDraws(t) [] t.fmt = "pov" -> PovDraws(t) [] t.fmt = "ugs" -> UgsDraws(t) [] t.fmt = "dxf" -> DxfDraws(t)
    [] t.fmt = "emf" -> M!EmfDraws(t) [] t.fmt = "cgm" -> M!CgmDraws(t) [] t.fmt = "dr2d" -> M!DrDraws(t) [] t.fmt = "plt" -> M!PltDraws(t)
    [] t.fmt = "ild" -> M!IldDraws(t) /\ M!IldIndexed(t)
Frame(t) ==
  CASE t.fmt = "svg" -> SvgFrame(t) [] t.fmt \in {"eps", "ai"} -> EpsFrame(t) [] t.fmt = "p2e" -> P2eFrame(t) [] t.fmt = "pdf" -> PdfFrame(t)
    [] t.fmt = "epd" -> EpdFrame(t) [] t.fmt = "sk" -> SkFrame(t) [] t.fmt = "fig" -> FigFrame(t) [] t.fmt = "mif" -> MifFrame(t)
    [] t.fmt = "er" -> ErFrame(t) [] t.fmt = "pov" -> PovFrame(t) [] t.fmt = "ugs" -> UgsFrame(t) [] t.fmt = "dxf" -> DxfFrame(t)
    [] t.fmt = "emf" -> M!EmfFrame(t) [] t.fmt = "cgm" -> M!CgmFrame(t) [] t.fmt = "dr2d" -> M!DrFrame(t) [] t.fmt = "plt" -> M!PltFrame(t)
    [] t.fmt = "ild" -> M!IldFrame(t)
\* POV-Ray prisms cannot hold strokes: refused
Refused(t) == t.fmt = "pov" /\ t.cl

\* results with control points further out than 80 pixels are not judged (integers of 32 bits)
Judged(t) == \A i \in 1 .. Len(t.lists) : \A j \in 1 .. Len(t.lists[i].s) : \A k \in 1 .. Len(t.lists[i].s[j]) : Abs(t.lists[i].s[j][k]) <= 80000
FailedDrawing(t) == IF Crashed(t) THEN {"crashed: " \o t.crash}
                    ELSE Clause(t.fmt \o ": what is drawn is the result", Judged(t) => Draws(t))
                         \cup Clause("refused only where it cannot be drawn", (t.fatal > 0) = Refused(t))
FailedFrame(t) == IF Crashed(t) THEN {"crashed: " \o t.crash}
                  ELSE Clause(t.fmt \o ": what the file says about itself is true", Frame(t))
=============================================================================

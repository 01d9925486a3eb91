------------------------------ MODULE Formats -------------------------------
(***************************************************************************)
(* The two tables of file formats (readers and writers).  A table maps     *)
(* suffixes to handlers; texts are sequences of character codes.  A suffix *)
(* is kept in lower case, the first handler registered for it stays, and a *)
(* file name is looked up by the text after its last dot.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

DOT == 46
Lower(s) == [i \in 1 .. Len(s) |-> IF s[i] \in 65 .. 90 THEN s[i] + 32 ELSE s[i]]
HasDot(s) == \E i \in 1 .. Len(s) : s[i] = DOT
LastDot(s) == CHOOSE i \in 1 .. Len(s) : s[i] = DOT /\ \A j \in i + 1 .. Len(s) : s[j] # DOT
Suffix(s) == IF HasDot(s) THEN SubSeq(s, LastDot(s) + 1, Len(s)) ELSE <<>>

\* a table: suffix -> [fn, about]
NoTable == [s \in {} |-> 0]
Add(tab, s, h) == IF Lower(s) \in DOMAIN tab THEN tab ELSE tab @@ (Lower(s) :> h)
None == [fn |-> "none", about |-> ""]
BySuffix(tab, s) == IF s # <<>> /\ Lower(s) \in DOMAIN tab THEN tab[Lower(s)] ELSE None
ByName(tab, n) == BySuffix(tab, Suffix(n))

\* suffixes as text for the formats the library starts with
Text(a, b, c, d) == SelectSeq(<<a, b, c, d>>, LAMBDA x : x > 0)
Start(dir) ==
  IF dir = "in"
  THEN (Text(112, 110, 103, 0) :> [fn |-> "png", about |-> "Portable network graphics"])
    @@ (Text(116, 103, 97, 0) :> [fn |-> "tga", about |-> "Truevision Targa image"])
    @@ (Text(98, 109, 112, 0) :> [fn |-> "bmp", about |-> "Microsoft Windows bitmap image"])
    @@ (Text(112, 98, 109, 0) :> [fn |-> "pnm", about |-> "Portable bitmap format"])
    @@ (Text(112, 110, 109, 0) :> [fn |-> "pnm", about |-> "Portable anymap format"])
    @@ (Text(112, 103, 109, 0) :> [fn |-> "pnm", about |-> "Portable graymap format"])
    @@ (Text(112, 112, 109, 0) :> [fn |-> "pnm", about |-> "Portable pixmap format"])
    @@ (Text(103, 102, 0, 0) :> [fn |-> "gf", about |-> "TeX raster font"])
  ELSE (Text(101, 112, 115, 0) :> [fn |-> "eps", about |-> "Encapsulated PostScript"])
    @@ (Text(97, 105, 0, 0) :> [fn |-> "eps", about |-> "Adobe Illustrator"])
    @@ (Text(112, 50, 101, 0) :> [fn |-> "p2e", about |-> "pstoedit frontend format"])
    @@ (Text(115, 107, 0, 0) :> [fn |-> "sk", about |-> "Sketch"])
    @@ (Text(115, 118, 103, 0) :> [fn |-> "svg", about |-> "Scalable Vector Graphics"])
    @@ (Text(117, 103, 115, 0) :> [fn |-> "ugs", about |-> "Unicode glyph source"])
    @@ (Text(102, 105, 103, 0) :> [fn |-> "fig", about |-> "XFIG 3.2"])
    @@ (Text(101, 109, 102, 0) :> [fn |-> "emf", about |-> "Enhanced Metafile format"])
    @@ (Text(109, 105, 102, 0) :> [fn |-> "mif", about |-> "FrameMaker MIF format"])
    @@ (Text(101, 114, 0, 0) :> [fn |-> "er", about |-> "Elastic Reality Shape file"])
    @@ (Text(100, 120, 102, 0) :> [fn |-> "dxf", about |-> "DXF format (without splines)"])
    @@ (Text(101, 112, 100, 0) :> [fn |-> "epd", about |-> "EPD format"])
    @@ (Text(112, 100, 102, 0) :> [fn |-> "pdf", about |-> "PDF format"])
    @@ (Text(99, 103, 109, 0) :> [fn |-> "cgm", about |-> "Computer Graphics Metafile"])
    @@ (Text(100, 114, 50, 100) :> [fn |-> "dr2d", about |-> "IFF DR2D format"])
    @@ (Text(112, 111, 118, 0) :> [fn |-> "pov", about |-> "Povray format"])
    @@ (Text(112, 108, 116, 0) :> [fn |-> "plt", about |-> "HPGL format"])
    @@ (Text(105, 108, 100, 0) :> [fn |-> "ild", about |-> "ILDA format"])
=============================================================================

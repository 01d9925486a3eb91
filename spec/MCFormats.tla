----------------------------- MODULE MCFormats ------------------------------
(***************************************************************************)
(* Every history of at most MAXADD registrations (on either table) and     *)
(* every name of at most MAXLEN characters.                                *)
(***************************************************************************)
EXTENDS Formats, TLC
CONSTANTS ALPHA, MAXLEN, MAXADD
VARIABLES tabs, first, n
Dirs == {"in", "out"}
Names == UNION {[1 .. k -> ALPHA] : k \in 0 .. MAXLEN}
Suffixes == UNION {[1 .. k -> ALPHA] : k \in 1 .. 2}
Init == tabs = [d \in Dirs |-> NoTable] /\ first = {} /\ n = 0
\* the registrations are numbered, so handlers can be told apart
Register(d, s) ==
  /\ n < MAXADD
  /\ n' = n + 1
  /\ tabs' = [tabs EXCEPT ![d] = Add(@, s, [fn |-> ToString(n + 1), about |-> ""])]
  /\ first' = IF \E f \in first : f.d = d /\ Lower(f.s) = Lower(s) THEN first
              ELSE first \union {[d |-> d, s |-> s, fn |-> ToString(n + 1)]}
Next == \E d \in Dirs, s \in Suffixes : Register(d, s)
Spec == Init /\ [][Next]_<<tabs, first, n>>
\* found exactly when the text after the last dot is registered, whatever the case
Exact == \A d \in Dirs, m \in Names :
  LET hits == {f \in first : f.d = d /\ HasDot(m) /\ Lower(f.s) = Lower(SubSeq(m, LastDot(m) + 1, Len(m)))}
  IN IF hits = {} THEN ByName(tabs[d], m) = None
     ELSE \E f \in hits : hits = {f} /\ ByName(tabs[d], m).fn = f.fn
NoCase == \A d \in Dirs, m \in Names : ByName(tabs[d], m) = ByName(tabs[d], Lower(m))
\* what stands before the last dot is irrelevant
DirectoryFree == \A d \in Dirs, m \in Names : HasDot(m) => ByName(tabs[d], m) = ByName(tabs[d], SubSeq(m, LastDot(m), Len(m)))
SameAsSuffix == \A d \in Dirs, s \in Suffixes : ~HasDot(s) => ByName(tabs[d], <<DOT>> \o s) = BySuffix(tabs[d], s)
\* a registration never changes what was found before
Stable == [][\A d \in Dirs, s \in Suffixes : BySuffix(tabs[d], s) # None => BySuffix(tabs[d], s)' = BySuffix(tabs[d], s)]_<<tabs, first, n>>
\* refuted: letter case matters
CaseMatters == \A d \in Dirs, m \in Names : ByName(tabs[d], m) # None => \E f \in first : f.d = d /\ f.s = Suffix(m)
=============================================================================

------------------------------- MODULE MCGlob -------------------------------
(* What the code's matchers said about every string up to length L, judged   *)
(* pattern by pattern.                                                       *)
EXTENDS Glob, FiniteSets, Json, IOUtils
CONSTANT L
Recs == ndJsonDeserialize(IOEnv.DOCS)
Kinds == {"t", "b", "p"}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET S == Strings(n - 1) IN S \cup {s \o k : s \in S, k \in Kinds}
All == Strings(L)

VARIABLES i, flats
vars == <<i, flats>>
Rec == Recs[i]
None_ == {<<<<"not yet">>>>}
SetOf(xs) == {xs[k] : k \in 1 .. Len(xs)}
Neg == Negations(Rec.pat)
Flip(b) == IF Neg % 2 = 1 THEN ~b ELSE b
Pre(F, s) == \E f \in F : FlatPrefix(f, s)
Full(F, s) == \E f \in F : FlatMatch(f, s)
Complain(F, which) ==
  LET got == SetOf(Rec[which])
      want == {s \in All : Flip(IF which = "prefix" THEN Pre(F, s) ELSE Full(F, s))}
      d == (got \ want) \cup (want \ got)
  IN IF d = {} THEN TRUE
     ELSE PrintT("@@" \o ToJson([pat |-> Rec.pat, which |-> which,
            strs |-> SetToSeq({<<s, IF s \in got THEN "accepted" ELSE "rejected">> : s \in d})]))
Init == i \in 1 .. Len(Recs) /\ flats = None_
Judge == /\ flats = None_ /\ UNCHANGED i
         /\ flats' = Flats(DropS(Rec.pat, Neg))
         /\ Complain(flats', "prefix") /\ (Rec.braces \/ Complain(flats', "full"))
Next == Judge

\* the specification's own answers: acceptance implies acceptance of all prefixes
Few == Strings(IF L > 4 THEN 4 ELSE L)
PrefixClosed == flats # None_ => \A s \in Few : Pre(flats, s) => \A n \in 0 .. Len(s) : Pre(flats, SubSeq(s, 1, n))
FullImpliesPrefix == flats # None_ => \A s \in Few : Full(flats, s) => Pre(flats, s)
\* what is accepted as a prefix can be extended (within the bound, for short ones)
Extendable == (flats # None_ /\ \A f \in flats : Len(f) <= L - 2) =>
                \A s \in Strings(2) : Pre(flats, s) => \E t \in All : StartsWith(t, s) /\ Full(flats, t)
=============================================================================

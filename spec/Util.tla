-------------------------------- MODULE Util --------------------------------
(* String and sequence helpers shared by every module of the specification.  *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

\* a TLA+ string as a sequence of one-character strings
CharsOf(s) == [i \in 1 .. Len(s) |-> SubSeq(s, i, i)]

\* the concatenation of a sequence of strings
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

\* separated concatenation
JoinSep(ss, sep) ==
  FoldLeft(LAMBDA a, b : a \o b, "",
           [i \in 1 .. Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

\* n copies of a string
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)

At(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropS(s, n) == SubSeq(s, n + 1, Len(s))

Init_(s) == SubSeq(s, 1, Len(s) - 1)          \* all but the last element
Top(s) == s[Len(s)]

\* position of the first occurrence of character c in s, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
RECURSIVE SplitBy(_, _)
SplitBy(s, c) == LET i == FindFrom(s, c, 1)
                 IN IF i = 0 THEN <<s>>
                    ELSE <<SubSeq(s, 1, i - 1)>> \o SplitBy(DropS(s, i), c)
=============================================================================

-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* The language described by an argument pattern, and matching against it.  *)
(* A pattern is a sequence of items: a literal character, ?, *, a class     *)
(* [abc] / [^abc] / [a-c], or alternatives {p,q,..}.  Expanding the         *)
(* alternatives gives a set of flat patterns (sequences of atoms).          *)
(***************************************************************************)
EXTENDS Util, Integers

\* ---- reading a pattern (a string) into the set of its flat patterns ----
Lit(c) == <<"lit", c>>

\* end of a class whose '[' is at i-1: index of its ']'
RECURSIVE ClassEnd(_, _, _)
ClassEnd(p, i, first) == IF At(p, i) = "]" /\ ~first THEN i ELSE ClassEnd(p, i + 1, FALSE)

\* the members of the class text s (ranges only between t, b, p and letters in Alpha)
Alpha == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n",
           "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
RangeSet(lo, hi) ==
  LET L == {i \in 1 .. 26 : Alpha[i] = lo}
      H == {i \in 1 .. 26 : Alpha[i] = hi}
  IN IF lo = hi THEN {lo}
     ELSE {Alpha[k] : k \in {k \in 1 .. 26 : \E l \in L, h \in H : l <= k /\ k <= h}}
RECURSIVE ClassSet(_)
ClassSet(s) == IF s = "" THEN {}
               ELSE IF Len(s) >= 3 /\ At(s, 2) = "-"
                    THEN RangeSet(At(s, 1), At(s, 3)) \cup ClassSet(DropS(s, 3))
                    ELSE {At(s, 1)} \cup ClassSet(DropS(s, 1))

Cross(A, B) == {a \o b : a \in A, b \in B}

\* Alternatives at depth 0 of p from i, until stop position; result: set of
\* flat patterns and the index behind.  inb: inside braces
RECURSIVE ParseSeq(_, _, _, _), ParseAlts(_, _, _)
ParseSeq(p, i, inb, acc) ==        \* returns [set, i]
  IF i > Len(p) THEN [set |-> acc, i |-> i]
  ELSE LET c == At(p, i) IN
       CASE inb /\ c \in {",", "}"} -> [set |-> acc, i |-> i]
         [] c = "?" -> ParseSeq(p, i + 1, inb, Cross(acc, {<<<<"any">>>>}))
         [] c = "*" -> ParseSeq(p, i + 1, inb, Cross(acc, {<<<<"star">>>>}))
         [] c = "[" -> LET neg == At(p, i + 1) \in {"^", "!"}
                           s == IF neg THEN i + 2 ELSE i + 1
                           e == ClassEnd(p, s, TRUE)
                       IN ParseSeq(p, e + 1, inb,
                                   Cross(acc, {<<<<"cls", neg, ClassSet(SubSeq(p, s, e - 1))>>>>}))
         [] c = "{" -> LET a == ParseAlts(p, i + 1, {})
                       IN ParseSeq(p, a.i, inb, Cross(acc, a.set))
         [] OTHER -> ParseSeq(p, i + 1, inb, Cross(acc, {<<Lit(c)>>}))
ParseAlts(p, i, acc) ==
  LET s == ParseSeq(p, i, TRUE, {<<>>}) IN
  IF s.i > Len(p) THEN [set |-> acc \cup s.set, i |-> s.i]
  ELSE IF At(p, s.i) = "," THEN ParseAlts(p, s.i + 1, acc \cup s.set)
  ELSE [set |-> acc \cup s.set, i |-> s.i + 1]

Flats(p) == ParseSeq(p, 1, FALSE, {<<>>}).set

AtomOk(a, c) == CASE a[1] = "lit" -> a[2] = c
                  [] a[1] = "any" -> TRUE
                  [] a[1] = "cls" -> (c \in a[3]) # a[2]

\* is s a prefix of a string described by the flat pattern f?
RECURSIVE FlatPrefix(_, _)
FlatPrefix(f, s) ==
  IF s = "" THEN TRUE
  ELSE IF f = <<>> THEN FALSE
  ELSE IF Head(f)[1] = "star" THEN FlatPrefix(Tail(f), s) \/ FlatPrefix(f, DropS(s, 1))
  ELSE AtomOk(Head(f), At(s, 1)) /\ FlatPrefix(Tail(f), DropS(s, 1))

RECURSIVE FlatMatch(_, _)
FlatMatch(f, s) ==
  IF f = <<>> THEN s = ""
  ELSE IF Head(f)[1] = "star"
       THEN FlatMatch(Tail(f), s) \/ (s # "" /\ FlatMatch(f, DropS(s, 1)))
  ELSE s # "" /\ AtomOk(Head(f), At(s, 1)) /\ FlatMatch(Tail(f), DropS(s, 1))

Negations(p) == LET RECURSIVE N(_)
                    N(i) == IF i <= Len(p) /\ At(p, i) = "!" THEN N(i + 1) ELSE i - 1
                IN N(1)
PrefixMatch(p, s) ==
  LET n == Negations(p)
      r == \E f \in Flats(DropS(p, n)) : FlatPrefix(f, s)
  IN IF n % 2 = 1 THEN ~r ELSE r
FullMatch(p, s) ==
  LET n == Negations(p)
      r == \E f \in Flats(DropS(p, n)) : FlatMatch(f, s)
  IN IF n % 2 = 1 THEN ~r ELSE r
=============================================================================

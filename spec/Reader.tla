------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The buffered reader: a lexer whose tokens pass, page by page, through a   *)
(* buffer, with a transducer in between that may expand or swallow tokens.   *)
(* It refines the plain reader, which sees the expanded tokens one by one.   *)
(*                                                                         *)
(* A token is <<id, length>>; consuming a part of a token shortens it.       *)
(* Input symbols: "p" plain, "x" expands to EXPAND tokens, "d" a definition, *)
(* which yields nothing.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS PAGE, LEN, EXPAND

VARIABLES src,     \* the symbols of the whole input
          inner,   \* tokens the transducer has still to read
          page,    \* tokens of the current page
          peeked,  \* <<>> at the end of the input, or <<token>>
          abs      \* the plain reader: tokens still to be read
vars == <<src, inner, page, peeked, abs>>

Symbols == IF EXPAND = 0 THEN {"p"} ELSE {"p", "x", "d"}
Word == 2      \* the length of a fresh token
Fresh(id) == <<id, Word>>
Expansion(i) == [k \in 1 .. EXPAND |-> Fresh(<<i, k>>)]
Meaning(s, i) == CASE s = "p" -> <<Fresh(<<i, 0>>)>> [] s = "x" -> Expansion(i) [] s = "d" -> <<>>
RECURSIVE All(_, _)
All(s, i) == IF i > Len(s) THEN <<>> ELSE Meaning(s[i], i) \o All(s, i + 1)

\* the transducer's input: raw symbols, or pushed back tokens
Raw(s) == [i \in 1 .. Len(s) |-> [sym |-> s[i], at |-> i]]
Pushed(t) == [sym |-> "t", tok |-> t]

\* fill a page: read symbols until it has PAGE tokens or the input ends
RECURSIVE Fill(_, _)
Fill(in, pg) ==
  IF in = <<>> \/ Len(pg) >= PAGE THEN <<in, pg>>
  ELSE LET h == Head(in) IN
       CASE h.sym = "t" -> Fill(Tail(in), Append(pg, h.tok))
         [] h.sym = "p" -> Fill(Tail(in), Append(pg, Fresh(<<h.at, 0>>)))
         [] h.sym = "d" -> Fill(Tail(in), pg)
         [] h.sym = "x" -> Fill([k \in 1 .. EXPAND |-> Pushed(Expansion(h.at)[k])] \o Tail(in), pg)

\* advance: [inner, page, peeked]
Advance(in, pg) ==
  IF pg # <<>> THEN <<in, Tail(pg), <<Head(pg)>>>>
  ELSE LET f == Fill(in, <<>>)
       IN IF f[2] = <<>> THEN <<f[1], <<>>, <<>>>> ELSE <<f[1], Tail(f[2]), <<Head(f[2])>>>>
Take == LET a == Advance(inner, page) IN inner' = a[1] /\ page' = a[2] /\ peeked' = a[3]

Init == /\ src \in UNION {[1 .. n -> Symbols] : n \in 0 .. LEN}
        /\ LET a == Advance(Raw(src), <<>>) IN inner = a[1] /\ page = a[2] /\ peeked = a[3]
        /\ abs = All(src, 1)

Eat == /\ Take
       /\ abs' = IF abs = <<>> THEN <<>> ELSE Tail(abs)
       /\ UNCHANGED src
\* consume n characters of the current token
Consume(n) ==
  /\ UNCHANGED src
  /\ IF peeked = <<>> THEN UNCHANGED <<inner, page, peeked, abs>>
     ELSE IF peeked[1][2] <= n THEN Take /\ abs' = Tail(abs)
     ELSE /\ peeked' = <<<<peeked[1][1], peeked[1][2] - n>>>>
          /\ abs' = <<peeked'[1]>> \o Tail(abs)
          /\ UNCHANGED <<inner, page>>
Next == Eat \/ \E n \in 1 .. 3 : Consume(n)

TypeOK == Len(page) < PAGE /\ Len(peeked) <= 1
\* the reader shows exactly the first token of the plain one, and nothing after the end
SameView == peeked = IF abs = <<>> THEN <<>> ELSE <<Head(abs)>>
\* what the plain reader may do: take a token or shorten the first one
PlainStep == \/ abs = <<>> /\ abs' = <<>>
             \/ abs # <<>> /\ abs' = Tail(abs)
             \/ abs # <<>> /\ abs' # <<>> /\ Tail(abs') = Tail(abs)
                /\ Head(abs')[1] = Head(abs)[1] /\ Head(abs')[2] < Head(abs)[2]
Refines == [][PlainStep]_vars
=============================================================================

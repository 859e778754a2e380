----------------------------- MODULE MCUnicode ------------------------------
(* How the code tokenizes every character of Unicode, judged run by run.     *)
(* A run is a range of characters c for which the four documents             *)
(* c, qcq, \qc, \cq give the same tokens (c itself replaced by <C>).      *)
EXTENDS Lexer, Integers
Runs == JsonDeserialize(IOEnv.RUNS)
R == "<C>"

\* the categories by code point
NlPts == {10, 13}
WsRanges == {<<9, 9>>, <<11, 12>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>,
             <<8192, 8202>>, <<8232, 8233>>, <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>>}
LetterRanges == {<<65, 90>>, <<97, 122>>}
AsciiMark == (33 :> "!") @@ (34 :> "\"") @@ (35 :> "#") @@ (36 :> "$") @@ (37 :> "%") @@ (38 :> "&") @@
             (39 :> "'") @@ (40 :> "(") @@ (41 :> ")") @@ (42 :> "*") @@ (44 :> ",") @@ (47 :> "/") @@
             (59 :> ";") @@ (64 :> "@") @@ (91 :> "[") @@ (92 :> "\\") @@ (93 :> "]") @@ (94 :> "^") @@
             (95 :> "_") @@ (123 :> "{") @@ (125 :> "}") @@ (126 :> "~")
In(cp, S) == \E r \in S : r[1] <= cp /\ cp <= r[2]
\* a character that stands for all of its category
Rep_(cp) == CASE cp \in NlPts -> "\n"
              [] In(cp, WsRanges) -> " "
              [] In(cp, LetterRanges) -> "z"
              [] cp \in DOMAIN AsciiMark -> AsciiMark[cp]
              [] OTHER -> "0"
\* both ends of a run and no boundary of a category in between
Bounds == {9, 10, 11, 13, 14, 32, 33, 65, 91, 97, 123, 133, 134, 160, 161, 5760, 5761, 8192, 8203,
           8232, 8234, 8239, 8240, 8287, 8288, 12288, 12289} \cup DOMAIN AsciiMark \cup {x + 1 : x \in DOMAIN AsciiMark}
OneClass(lo, hi) == \A b \in Bounds : ~(lo < b /\ b <= hi)

Subst(tok, c) == tok[1] \o ":" \o Cat([k \in 1 .. Len(tok[2]) |-> IF At(tok[2], k) = c THEN R ELSE At(tok[2], k)]) \o ";"
Shown(cs, c) == LET ts == Lex(cs, "small") IN Cat([k \in 1 .. Len(ts) |-> Subst(ts[k], c)]) \o "|"
Want(c) == Shown(<<c>>, c) \o Shown(<<"q", c, "q">>, c) \o Shown(<<"\\", "q", c>>, c) \o Shown(<<"\\", c, "q">>, c)

VARIABLE i
Run == Runs[i]
\* (the probes contain q themselves)
Expected == IF Run[1] = 113 THEN Want("q") ELSE Want(Rep_(Run[1]))
Complain == IF OneClass(Run[1], Run[2]) /\ Run[3] = Expected THEN TRUE
            ELSE PrintT("@@" \o ToJson([lo |-> Run[1], hi |-> Run[2], got |-> Run[3], want |-> Expected]))
Init == i \in 1 .. Len(Runs) /\ Complain
Next == FALSE /\ i' = i
=============================================================================

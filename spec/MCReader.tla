------------------------------ MODULE MCReader ------------------------------
(* What scripts of reader operations must observe on recorded documents.     *)
(*  e take a token, p peek, c peek a character, 1..9 consume characters      *)
EXTENDS Lexer, MacroEngine
Docs == ndJsonDeserialize(IOEnv.DOCS)
End == <<"end">>
IsNum(o) == DigitVal(o) > 0

\* the plain reader on the tokens ts: [obs, rest]
RECURSIVE Script(_, _, _, _)
Script(ts, ops, k, obs) ==
  IF k > Len(ops) THEN [obs |-> obs, rest |-> ts]
  ELSE LET o == ops[k]
           t == IF ts = <<>> THEN End ELSE Head(ts)
       IN CASE o = "e" -> Script(IF ts = <<>> THEN ts ELSE Tail(ts), ops, k + 1, Append(obs, t))
            [] o = "p" -> Script(ts, ops, k + 1, Append(obs, t))
            [] o = "c" -> Script(ts, ops, k + 1, Append(obs,
                             IF ts = <<>> THEN End
                             ELSE IF t[1] = "error" THEN <<"?">>
                             ELSE IF t[2] = "" THEN End ELSE <<At(t[2], 1)>>))
            [] OTHER -> Script(IF ts = <<>> THEN ts
                               ELSE IF t[1] = "error" \/ Len(t[2]) <= DigitVal(o) THEN Tail(ts)
                               ELSE <<<<t[1], DropS(t[2], DigitVal(o))>>>> \o Tail(ts),
                               ops, k + 1, Append(obs, <<>>))

VARIABLES i, toks, out
vars == <<i, toks, out>>
D == Docs[i]
None_ == <<<<"not yet">>>>
Init == i \in 1 .. Len(Docs) /\ toks = None_ /\ out = <<>>
Read == /\ toks = None_ /\ UNCHANGED i
        /\ LET lexed == Lex(D.cs, D.sp)
               exp == ERun(EInit(lexed, D.sp))
               skip == D.macros /\ Diverged(exp)
               ts == IF D.macros THEN exp.out ELSE lexed
               obs == Script(ts, D.ops, 1, <<>>).obs
           IN IF skip THEN /\ toks' = <<>> /\ out' = <<>>
                           /\ PrintT("@@" \o ToJson([id |-> D.id, skip |-> TRUE]))
              ELSE /\ toks' = ts /\ out' = obs
                   /\ PrintT("@@" \o ToJson([id |-> D.id, obs |-> obs]))
Next == Read

\* a script of takes and peeks observes the tokens in order, each once, and then the end
NoConsume == \A k \in 1 .. Len(D.ops) : ~IsNum(D.ops[k])
Once == (out # <<>> /\ NoConsume) =>
          LET RECURSIVE Same(_, _)
              Same(k, n) == \/ k > Len(out)
                            \/ /\ D.ops[k] \in {"e", "p"} => out[k] = (IF n <= Len(toks) THEN toks[n] ELSE End)
                               /\ Same(k + 1, IF D.ops[k] = "e" THEN n + 1 ELSE n)
          IN Same(1, 1)
=============================================================================

------------------------------- MODULE Mitex --------------------------------
(***************************************************************************)
(* The whole system on one document: an editor types a document (or takes   *)
(* a recorded one), and the pipeline lexer -> macro engine -> parser ->     *)
(* converter processes it.  The stages run one after the other; the steps   *)
(* of a stage are the steps of its machine (grain "fine") or its whole run  *)
(* (grain "run").                                                          *)
(*                                                                         *)
(* Views of a document: lex (tokens), exp (tokens after macro expansion),   *)
(* tree (of the unexpanded tokens), treem (of the expanded ones), text and  *)
(* math (the conversions).                                                 *)
(***************************************************************************)
EXTENDS Lexer, MacroEngine, Converter

\* configuration of the run, see run/check.py
Conf == JsonDeserialize(IOEnv.CONF)
Recorded == Conf.mode \in {"file", "docs"}
Docs == IF Recorded THEN ndJsonDeserialize(IOEnv.DOCS) ELSE <<>>

VARIABLES src,   \* the document: <<i>> (recorded) or the lexemes typed so far
          ph,    \* 0: editing, k: in the k-th view of the plan, past it: done
          st,    \* state of the machine of the current view
          res    \* results of the views before
vars == <<src, ph, st, res>>

NoState == [none |-> TRUE]
Plan == Conf.plan
Done == ph = Len(Plan) + 1
View == Plan[ph]

Doc == Docs[src[1]]
Chars == IF Recorded THEN Doc.cs
         ELSE FoldLeft(LAMBDA a, i : a \o Conf.alphabet[i], <<>>, src) \o
              (IF src = <<>> THEN Conf.post ELSE Conf.posts[src[1]])
Sp == IF Recorded THEN Doc.sp ELSE Conf.sp

----------------------------------------------------------------------------
Begin(v, r) ==
  CASE v = "lex" -> LexInit(Chars, Sp)
    [] v = "exp" -> EInit(r.lex, Sp)
    [] v = "tree" -> PInit(r.lex, Sp)
    [] v = "treem" -> PInit(r.exp, Sp)
    [] v \in {"text", "math"} -> CInit(r.treem, Sp, v)
Ended(v, s) == CASE v = "lex" -> LexDone(s)
                 [] v = "exp" -> EDone(s)
                 [] v \in {"tree", "treem"} -> PDone(s)
                 [] v \in {"text", "math"} -> CDone(s)
StepOf(v, s) == CASE v = "lex" -> LexStep(s)
                  [] v = "exp" -> EStep(s)
                  [] v \in {"tree", "treem"} -> PStep(s)
                  [] v \in {"text", "math"} -> CStep(s)
RunOf(v, s) == CASE v = "lex" -> LexRun(s)
                 [] v = "exp" -> ERun(s)
                 [] v \in {"tree", "treem"} -> PRun(s)
                 [] v \in {"text", "math"} -> CRun(s)
ResultOf(v, s) == CASE v = "lex" -> s.toks
                    [] v = "exp" -> s.out
                    [] v \in {"tree", "treem"} -> s.ch[1]
                    [] v \in {"text", "math"} -> IF s.err THEN <<FALSE, "">> ELSE <<TRUE, s.out>>

----------------------------------------------------------------------------
(* What is compared with the implementation.  Names of observations:         *)
(*   lex exp tree treem text math  the view itself                           *)
(*   leaves leavesm                the leaves of tree / treem                *)
(*   textok mathok                 whether the conversion succeeds           *)
(*   endlex endexp endtree ..      that there is a result                    *)
ObsView(o) == CASE StartsWith(o, "end") -> DropS(o, 3)
                [] o \in {"leaves"} -> "tree" [] o = "leavesm" -> "treem"
                [] o = "textok" -> "text" [] o = "mathok" -> "math" [] OTHER -> o
LeafList(t) == [i \in 1 .. Len(Leaves(t)) |-> <<Leaves(t)[i][2], Leaves(t)[i][3]>>]
Project(o, x) ==
  CASE o \in {"lex", "exp"} -> x
    [] o \in {"tree", "treem"} -> Render(x)
    [] o \in {"leaves", "leavesm"} -> LeafList(x)
    [] o \in {"text", "math"} -> IF x[1] THEN <<TRUE, x[2]>> ELSE <<FALSE, "">>
    [] o \in {"textok", "mathok"} -> <<x[1]>>
    [] OTHER -> TRUE

\* the observations on which the implementation differs
Mismatches(r) == {o \in {Conf.obs[i] : i \in 1 .. Len(Conf.obs)} :
                    Project(o, Doc[ObsView(o)]) # Project(o, r[ObsView(o)])}
Report(r) ==
  IF Conf.mode = "file"
  THEN LET m == Mismatches(r) IN
       IF m = {} THEN TRUE
       ELSE PrintT("@@" \o ToJson([id |-> Doc.id, bad |-> SetToSeq(m),
                 want |-> [o \in m |-> Project(o, r[ObsView(o)])]]))
  ELSE PrintT("@@" \o ToJson([cs |-> IF Recorded THEN <<>> ELSE Chars,
                 id |-> IF Recorded THEN Doc.id ELSE 0,
                 want |-> [o \in {Conf.obs[i] : i \in 1 .. Len(Conf.obs)} |->
                             Project(o, r[ObsView(o)])]]))

----------------------------------------------------------------------------
Init == IF Recorded
        THEN /\ src \in {<<i>> : i \in 1 .. Len(Docs)}
             /\ ph = 1 /\ st = Begin(Plan[1], <<>>) /\ res = <<>>
        ELSE src = <<>> /\ ph = 0 /\ st = NoState /\ res = <<>>

\* slots: for each position the lexemes (indices into the alphabet) that may stand there
Type(i) == /\ ph = 0 /\ Len(src) < Len(Conf.slots)
           /\ i \in Conf.slots[Len(src) + 1][1] .. Conf.slots[Len(src) + 1][2]
           /\ src' = Append(src, i) /\ UNCHANGED <<ph, st, res>>
Submit == /\ ph = 0 /\ Len(src) >= Conf.minlen
          /\ ph' = 1 /\ st' = Begin(Plan[1], res) /\ UNCHANGED <<src, res>>

\* what an error inside of verbatim Typst code prints is left open
RECURSIVE Murky(_, _)
Murky(e, inTypst) ==
  \/ inTypst /\ K(e) = "error"
  \/ ~IsTok(e) /\ \E i \in 1 .. Len(Kids(e)) : Murky(Kids(e)[i], inTypst \/ K(e) = "typst")

Pinned == \E i \in 1 .. Len(Conf.obs) : Conf.obs[i] \in {"text", "math", "textok", "mathok"}

Finished(s) ==
  IF (View = "exp" /\ Diverged(s)) \/ (View = "treem" /\ Pinned /\ Murky(s.ch[1], FALSE))
  THEN /\ PrintT("@@" \o ToJson([cs |-> Chars, skip |-> TRUE, id |-> IF Recorded THEN Doc.id ELSE 0]))
       /\ ph' = Len(Plan) + 1 /\ st' = NoState /\ UNCHANGED <<src, res>>
  ELSE
  LET r == (View :> ResultOf(View, s)) @@ res
      last == ph = Len(Plan)
  IN /\ res' = r
     /\ ph' = ph + 1
     /\ st' = IF last THEN NoState ELSE Begin(Plan[ph + 1], r)
     /\ IF last THEN Report(r) ELSE TRUE
     /\ UNCHANGED src
Work == /\ ph # 0 /\ ~Done
        /\ IF Conf.grain = "run" THEN Finished(RunOf(View, st))
           ELSE IF Ended(View, st) THEN Finished(st)
           ELSE st' = StepOf(View, st) /\ UNCHANGED <<src, ph, res>>

Next == \/ \E i \in 1 .. Len(Conf.alphabet) : Type(i)
        \/ Submit
        \/ Work
Spec_ == Init /\ [][Next]_vars
=============================================================================

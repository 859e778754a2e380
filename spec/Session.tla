------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Many conversions in one process: one after the other (mode "seq") or at   *)
(* the same time on several threads (mode "par"), at the grain of single     *)
(* machine steps.                                                          *)
(*                                                                         *)
(* The process shares one table of built-in macros.  A conversion reads the  *)
(* shared table until its first definition, from then on its own copy (copy  *)
(* on write).  A conversion is a call [cs, mode, sp].                        *)
(***************************************************************************)
EXTENDS Lexer, MacroEngine, Converter
Conf == JsonDeserialize(IOEnv.CONF)      \* mode, len, threads
Docs == ndJsonDeserialize(IOEnv.DOCS)    \* the calls

VARIABLES shared,   \* the process-wide macro table
          th,       \* threads: what each is doing
          hist,     \* calls made (seq) / assigned to the threads (par)
          outs      \* results: of the calls so far (seq) / of the threads (par)
vars == <<shared, th, hist, outs>>
Pending_ == <<FALSE, "">>
NoWork == [stage |-> "idle"]

Stages == <<"lex", "exp", "parse", "conv", "done">>
Begin(c) == [stage |-> "lex", call |-> c, own |-> FALSE, st |-> LexInit(Docs[c].cs, Docs[c].sp)]
Result(w) == IF w.st.err THEN <<FALSE, "">> ELSE <<TRUE, w.st.out>>

\* one step of a conversion: of its machine, or into the next stage
WorkStep(w) ==
  LET sp == Docs[w.call].sp IN
  CASE w.stage = "lex" -> IF LexDone(w.st)
                          THEN [w EXCEPT !.stage = "exp", !.st = [EInit(w.st.toks, sp) EXCEPT !.mac = <<>>]]
                          ELSE [w EXCEPT !.st = LexStep(@)]
    [] w.stage = "exp" -> IF EDone(w.st)
                          THEN [w EXCEPT !.stage = "parse", !.st = PInit(w.st.out, sp)]
                          ELSE LET base == IF w.own THEN w.st.mac ELSE shared
                                   s == EStep([w.st EXCEPT !.mac = base])
                               IN IF s.mac = base /\ ~w.own
                                  THEN [w EXCEPT !.st = [s EXCEPT !.mac = <<>>]]
                                  ELSE [w EXCEPT !.st = s, !.own = TRUE]
    [] w.stage = "parse" -> IF PDone(w.st)
                            THEN [w EXCEPT !.stage = "conv", !.st = CInit(w.st.ch[1], sp, Docs[w.call].mode)]
                            ELSE [w EXCEPT !.st = PStep(@)]
    [] w.stage = "conv" -> IF CDone(w.st) THEN [w EXCEPT !.stage = "done"] ELSE [w EXCEPT !.st = CStep(@)]
RECURSIVE WorkRun(_)
WorkRun(w) == IF w.stage = "done" THEN w ELSE WorkRun(WorkStep(w))

\* what a call gives on its own in a new process
Solo(c) == LET d == Docs[c] IN ConvertTree(Parse(Expand(Lex(d.cs, d.sp), d.sp), d.sp), d.sp, d.mode)

Init == /\ shared = Builtin
        /\ IF Conf.mode = "par"
           THEN /\ hist \in [1 .. Conf.threads -> 1 .. Len(Docs)]
                /\ \A i \in 1 .. Conf.threads - 1 : hist[i] <= hist[i + 1]
                /\ th = [i \in 1 .. Conf.threads |-> Begin(hist[i])]
                /\ outs = [i \in 1 .. Conf.threads |-> Pending_]
           ELSE hist = <<>> /\ th = <<NoWork>> /\ outs = <<>>
\* sequential: one whole conversion
Call(c) == /\ Conf.mode = "seq" /\ Len(hist) < Conf.len
           /\ hist' = Append(hist, c)
           /\ outs' = Append(outs, Result(WorkRun(Begin(c))))
           /\ UNCHANGED <<shared, th>>
           /\ (Len(hist') = Conf.len \/ Len(hist') = 1) => PrintT("@@" \o ToJson([calls |-> hist', outs |-> outs']))
\* concurrent: one step of one thread
Step(i) == /\ Conf.mode = "par" /\ th[i].stage # "done"
           /\ LET w == WorkStep(th[i]) IN
              /\ th' = [th EXCEPT ![i] = w]
              /\ outs' = IF w.stage = "done" THEN [outs EXCEPT ![i] = Result(w)] ELSE outs
           /\ UNCHANGED <<shared, hist>>
Next == (\E c \in 1 .. Len(Docs) : Call(c)) \/ (\E i \in 1 .. Len(th) : Step(i))

----------------------------------------------------------------------------
\* the shared table is never written
NeverWritten == shared = Builtin
\* history independence: equal calls give equal results, the one they give alone
SameAsAlone == Conf.mode = "seq" =>
                 \A k \in 1 .. Len(hist) : k = Len(hist) => outs[k] = Solo(hist[k])
\* schedule independence
Isolated == Conf.mode = "par" =>
              \A i \in 1 .. Len(th) : th[i].stage = "done" => outs[i] = Solo(hist[i])
\* a result does not change any more
Final == [][\A i \in 1 .. Len(outs) : (Conf.mode = "seq" \/ th[i].stage = "done") => outs'[i] = outs[i]]_vars
=============================================================================

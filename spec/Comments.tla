------------------------------ MODULE Comments ------------------------------
(***************************************************************************)
(* An author who only edits comments.  A step inserts a line comment where  *)
(* white space with a line break already stands (a whole line after it, or  *)
(* the comment alone before it), replaces the text of a comment, or deletes *)
(* such a line.  The converted document stays the same but for white space *)
(* (and formulas with nothing in them); in text paragraphs stay paragraphs, *)
(* if there is no definition or conditional: a line of these is empty).     *)
(***************************************************************************)
EXTENDS Lexer, MacroEngine, Converter
Conf == JsonDeserialize(IOEnv.CONF)      \* edits, texts, sp
Docs == ndJsonDeserialize(IOEnv.DOCS)    \* [id, cs]
Texts == 1 .. Len(Conf.texts)            \* comments: sequences of characters, from % on

VARIABLES doc,    \* the characters
          out,    \* what it converts to, without white space, in text and in math mode
          id, n
vars == <<doc, out, id, n>>

\* ... and without empty formulas: \color in a formula makes one of every piece of
\* white space and every comment
NoEmpty(s) == FoldLeft(LAMBDA a, c : IF c = "$" /\ a # <<>> /\ a[Len(a)] = "$"
                                     THEN SubSeq(a, 1, Len(a) - 1) ELSE Append(a, c), <<>>, s)
Squash(s) == NoEmpty(SelectSeq(CharsOf(s), LAMBDA c : c \notin TrimSet))
\* two line breaks with at most white space between them are an empty line: a new paragraph
Paras(s) == FoldLeft(LAMBDA a, c : IF c \in TrimSet THEN [a EXCEPT !.n = @ + (IF c = "\n" THEN 1 ELSE 0)]
                                   ELSE [n |-> 0, s |-> a.s \o (IF a.n > 1 THEN <<"¶", c>> ELSE <<c>>)],
                     [n |-> 0, s |-> <<>>], CharsOf(s)).s
Of(r) == IF r[1] THEN <<TRUE, Cat(Squash(r[2]))>> ELSE <<FALSE, "">>
OfText(r, paras) == IF r[1] /\ paras THEN <<TRUE, Cat(NoEmpty(Paras(r[2])))>> ELSE Of(r)
Expanded(c) == ERun(EInit(Lex(c, Conf.sp), Conf.sp))
Full(c, paras) == LET e == Expanded(c) IN
  IF Diverged(e) THEN <<>>
  ELSE LET t == Parse(e.out, Conf.sp)
       IN <<OfText(ConvertTree(t, Conf.sp, "text"), paras), Of(ConvertTree(t, Conf.sp, "math"))>>

\* tokens of the document with their first and last character
Toks(c) == LET s == LexRun(LexInit(c, Conf.sp)) IN
  [i \in 1 .. Len(s.toks) |-> [k |-> s.toks[i][1], a |-> s.starts[i],
                               e |-> IF i < Len(s.toks) THEN s.starts[i + 1] - 1 ELSE Len(c),
                               t |-> s.toks[i][2]]]
Insert(c, after, x) == SubSeq(c, 1, after) \o x \o SubSeq(c, after + 1, Len(c))
Line(x) == Conf.texts[x] \o <<"\n">>

AfterBreak(c) == LET ts == Toks(c) IN {ts[i].e : i \in {j \in 1 .. Len(ts) : ts[j].k = "nl"}}
BeforeBreak(c) ==
  LET ts == Toks(c) IN
  {ts[i].a - 1 : i \in {j \in 1 .. Len(ts) : /\ ts[j].k = "nl"
                                             /\ j > 1 => ts[j - 1].k # "com" /\ ts[j - 1] .t # "\\"
                                             \* (a comment on an empty line takes the paragraph's end away)
                                             /\ j > 1 /\ ts[j - 1].k = "ws" => j > 2 /\ ts[j - 2].k # "nl"}}
CommentsOf(c) == LET ts == Toks(c) IN {ts[i] : i \in {j \in 1 .. Len(ts) : ts[j].k = "com"}}

Init == \E i \in 1 .. Len(Docs) :
          /\ doc = Docs[i].cs /\ id = Docs[i].id /\ n = 0
          /\ out = Full(doc, Docs[i].paras)
          /\ PrintT("@@" \o ToJson([id |-> id, n |-> 0, cs |-> doc, want |-> out]))
Edit(c) == /\ doc' = c /\ out' = Full(c, Docs[CHOOSE i \in 1 .. Len(Docs) : Docs[i].id = id].paras) /\ n' = n + 1 /\ UNCHANGED id
           /\ PrintT("@@" \o ToJson([id |-> id, n |-> n + 1, cs |-> c, want |-> out']))
Next == /\ n < Conf.edits /\ out # <<>>
        /\ \/ \E k \in AfterBreak(doc), x \in Texts : Edit(Insert(doc, k, Line(x)))
           \/ \E k \in BeforeBreak(doc), x \in Texts : Edit(Insert(doc, k, Conf.texts[x]))
           \/ \E t \in CommentsOf(doc), x \in Texts :
                Edit(SubSeq(doc, 1, t.a - 1) \o Conf.texts[x] \o SubSeq(doc, t.e + 1, Len(doc)))

\* comments do not matter
Quiet == [][out' = out]_vars
=============================================================================

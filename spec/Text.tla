-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* An author writing a document, and what the document shows.               *)
(*                                                                         *)
(* As in Formula, the state is the source written so far and a stack of     *)
(* open constructs; every action writes a piece of source: a word, a space, *)
(* a paragraph break, a comment, a symbol, a formula, the start or the end  *)
(* of a command, a group, a list, an item, a table, a figure, the next cell *)
(* or row.  Along with the source goes what it shows, a sequence of nodes   *)
(*   <<"t", c>>  a character        <<"sp">> white space                    *)
(*   <<"par">>   a new paragraph    <<"br">> a new line                     *)
(*   <<"sy", c>> the symbol c (as text or in an equation)                   *)
(*   <<"eq", block, m>>  an equation; m as in Formula                       *)
(*   <<"strong"/"emph"/"foot"/"fill"/"box"/"plain".., nodes>>               *)
(*   <<"head", level, nodes>>  <<"quote", nodes>>  <<"li"/"ei", nodes>>     *)
(*   <<"table", aligns, lines, entries>>, entries <<"cell", nodes>> or      *)
(*   <<"hline", width>>     <<"fig", caption, nodes>>                       *)
(*   <<"lab", l>> a label on the node in front of it, <<"ref"/"cite", l>>   *)
(*   <<"image", options, name>>                                             *)
(***************************************************************************)
EXTENDS Formula

\* formulas: [s: source, m: meaning]; words: [s, m: characters]; symbols: [s, m]
TConf == FConf.text
TWords == TConf.words
\* without vary, only one way of writing (spaces, line breaks, names, ..) is taken
Vary(S, x) == IF TConf.vary THEN S ELSE {x}
TUse == {TConf.use[i] : i \in 1 .. Len(TConf.use)}

----------------------------------------------------------------------------
(* constructs: frames of the stack                                           *)
\*   k      doc item quote fig (blocks may stand there), list, row, cell, arg, group
\*   ns     what it shows so far
\*   cls    how the source ends: start (nothing there yet) word sp line (a new line) piece
\*   open   a bracket or star would not be taken for an argument of what is in front of it
TFrame(k, n) == [k |-> k, name |-> n, ns |-> <<>>, cls |-> "start", open |-> FALSE, x |-> <<>>, cap |-> <<>>, lab |-> <<>>]
TCur == Top(stack)
Blocks == {"doc", "item", "quote", "fig"}
Runs == Blocks \cup {"cell", "arg", "group"}      \* where text stands
\* an argument of a command that is part of a line
Inside(k) == \E i \in 1 .. Len(stack) : stack[i].k = k
InsideCmd(n) == \E i \in 1 .. Len(stack) : stack[i].name = n

Show(st, ns, cls, open) ==
  [st EXCEPT ![Len(st)].ns = @ \o ns, ![Len(st)].cls = cls, ![Len(st)].open = open]
Say_(s, ns, cls, open) == Write(s) /\ stack' = Show(stack, ns, cls, open)
TLast == IF TCur.ns = <<>> THEN <<"">> ELSE Top(TCur.ns)

----------------------------------------------------------------------------
(* the pieces of a line                                                      *)
WordT(i) ==
  LET w == TWords[i] IN
  /\ TCur.k \in Runs /\ TCur.cls # "word" /\ (w.bracket => TCur.open) /\ Spend
  /\ ~(TCur.cls = "rule" /\ At(w.s, 1) = "'")       \* (open finding: the apostrophe belongs to the rule)
  /\ Say_(w.s, [j \in 1 .. Len(w.m) |-> <<"t", w.m[j]>>], "word", TRUE)
SpaceT == /\ TCur.k \in Runs /\ TCur.cls \in {"word", "piece"} /\ UNCHANGED fuel
          /\ \E s \in Vary({" ", "\n", "  ", "\n  ", " \n", "\t"}, "\n") :
               Say_(s, << <<"sp">> >>, IF At(s, 1) = "\n" \/ At(s, Len(s)) = "\n" THEN "line" ELSE "sp", TCur.open)
\* a comment does not show; the line break at its end belongs to it
CommentT == /\ TCur.k \in Runs /\ TCur.cls \in {"sp", "line"} /\ Spend
            /\ \E s \in Vary({"% \\x{ $\n", "%\n", "%a\n  ", "\\iffalse z $ \\fi{}"}, "%a\n  ") : Say_(s, <<>>, IF At(s, 1) = "%" THEN "line" ELSE "piece", FALSE)
ParT == /\ TCur.k \in Blocks /\ TCur.cls # "start" /\ Spend
        /\ \E s \in Vary({"\n\n", "\n  \n", "\n%a\n\n"}, "\n\n") :
             Say_(IF TCur.cls = "line" THEN (IF s = "\n%a\n\n" THEN "%a\n\n" ELSE "\n") ELSE s, << <<"par">> >>, "line", TCur.open)
BreakT == /\ TCur.k \in Runs \ {"cell"} /\ ~InsideCmd("section") /\ ~InsideCmd("caption") /\ ~Inside("cell")
          /\ TCur.cls \in {"word", "piece"} /\ TLast[1] \notin {"head", "quote", "li", "ei", "table", "fig", "lab", "br"} /\ Spend
          /\ Say_("\\\\ ", << <<"br">> >>, "sp", FALSE)
SymbolT(i) == /\ TCur.k \in Runs /\ Spend
              /\ Say_(TConf.symbols[i].s, TConf.symbols[i].m, "piece", FALSE)
FormulaT(i) ==
  LET f == TConf.formulas[i] IN
  /\ TCur.k \in Runs /\ Spend
  /\ \/ (IF src = "" THEN TRUE ELSE At(src, Len(src)) # "$")     \* (two dollars belong together)
        /\ Say_("$" \o f.s \o "$", << <<"eq", FALSE, f.m>> >>, "piece", FALSE)
     \/ TConf.vary /\ Say_("\\(" \o f.s \o "\\)", << <<"eq", FALSE, f.m>> >>, "piece", FALSE)
DisplayT(i) ==
  LET f == TConf.formulas[i] IN
  /\ TCur.k \in Blocks /\ Spend
  /\ \/ (IF src = "" THEN TRUE ELSE At(src, Len(src)) # "$")
        /\ Say_("$$" \o f.s \o "$$", << <<"eq", TRUE, f.m>> >>, "piece", FALSE)
     \/ Say_("\\[" \o f.s \o "\\]", << <<"eq", TRUE, f.m>> >>, "piece", FALSE)
     \/ \E n \in Vary({"equation", "align*", "gather"}, "equation") : \E l \in Vary({"", "e1", "eq:a-b"}, "e1") : \E first \in Vary(BOOLEAN, TRUE) :
          LET lab == IF l = "" THEN "" ELSE "\\label{" \o l \o "}" IN
          Say_("\\begin{" \o n \o "}" \o (IF first THEN lab \o f.s ELSE f.s \o lab) \o "\\end{" \o n \o "}",
               << <<"eq", TRUE, MakeEnv(n, <<>>, << <<f.m>> >>)>> >> \o (IF l = "" THEN <<>> ELSE << <<"lab", l>> >>), "piece", FALSE)
\* references and pictures
RefT == /\ TCur.k \in Runs /\ ~InsideCmd("math") /\ Spend
        /\ \E l \in Vary({"e1", "eq:a-b", "a_b", "s.1"}, "a_b") :
             \/ Say_("\\ref{" \o l \o "}", << <<"ref", l>> >>, "piece", FALSE)
             \/ Say_("\\eqref{ " \o l \o " }", << <<"ref", l>> >>, "piece", FALSE)
             \/ Say_("\\cite{" \o l \o "}", << <<"cite", l>> >>, "piece", FALSE)
ImageT == /\ TCur.k \in {"doc", "fig", "item"} /\ Spend
          /\ \/ Say_("\\includegraphics{a-b_c.png}", << <<"image", <<>>, "a-b_c.png">> >>, "piece", FALSE)
             \/ Say_("\\includegraphics[width=3cm, height = 2pt]{ x/y.jpg }", << <<"image", <<"width", "85.04pt", "height", "2pt">>, "x/y.jpg">> >>, "piece", FALSE)
             \/ Say_("\\includegraphics[width=0.5\\textwidth]{x}", << <<"image", <<"width", "50%">>, "x">> >>, "piece", FALSE)
\* a section heading may have a label right after it
HeadLabelT == /\ TCur.k = "doc" /\ TLast[1] = "head" /\ TCur.cls = "piece" /\ UNCHANGED fuel
              /\ \E l \in Vary({"s.1", "sec:a_b"}, "s.1") : Say_("\\label{" \o l \o "}", << <<"lab", l>> >>, "piece", FALSE)

----------------------------------------------------------------------------
(* commands with text in them                                                *)
\* name: what it shows of its argument x
InlineOf ==
  [emph |-> "emph", textit |-> "emph", textbf |-> "strong", text |-> "plain", textnormal |-> "plain", textmd |-> "plain",
   textrm |-> "fill", textup |-> "fill", footnote |-> "foot", tq |-> "tq"]
MathOf == {"underline", "overline", "fbox", "hbox", "v", "H", "u", "r", "boxed", "sout"}
ColorOf == [textcolor |-> "fill", colorbox |-> "box"]
HeadOf == [section |-> 1, subsection |-> 2, subsubsection |-> 3]
\* (the others are shown in an equation)
DeclT == [bf |-> "strong", it |-> "emph", rm |-> "upright", sf |-> "sans", tt |-> "mono"]
TText(s) == [i \in 1 .. Len(s) |-> IF At(s, i) = " " THEN <<"sp">> ELSE <<"t", At(s, i)>>]
TextDefs == "\\newcommand{\\tq}[1]{\\emph{#1} (\\textbf{#1})}\\newenvironment{tn}[1]{\\begin{quote}#1: }{\\end{quote}}\n"
ShowCall(n, x) ==
  CASE n = "tq" -> << <<"emph", x>>, <<"sp">>, <<"t", "(">>, <<"strong", x>>, <<"t", ")">> >>
    [] n \in DOMAIN InlineOf -> IF InlineOf[n] = "plain" THEN x ELSE << <<InlineOf[n], x>> >>
    [] n \in MathOf -> << <<"eq", FALSE, Make(n, << x >>)>> >>
    [] n \in DOMAIN ColorOf -> << <<ColorOf[n], x>> >>
    [] n \in DOMAIN HeadOf -> << <<"head", HeadOf[n], x>> >>

OpenCall(n) ==
  /\ TCur.k \in Runs /\ Room /\ Spend
  /\ n = "footnote" => ~InsideCmd("footnote") /\ ~InsideCmd("section") /\ ~InsideCmd("caption") /\ ~InsideCmd("math")
  /\ n \in MathOf => ~InsideCmd("math")
  /\ n \in DOMAIN HeadOf => TCur.k = "doc"
  /\ \E s \in (IF n \in DOMAIN ColorOf THEN Vary({"{red}", "[rgb]{1,0,0}", "[HTML]{00ff7F}"}, "{red}") ELSE Vary({"", " "}, "")) :
       Write("\\" \o n \o s \o "{")
  /\ stack' = Append(stack, [TFrame("arg", IF n \in MathOf THEN "math" ELSE IF n \in DOMAIN HeadOf THEN "section" ELSE n)
                               EXCEPT !.x = <<n>>])
\* a group, in which a declaration holds to the end
OpenGroupT == /\ TCur.k \in Runs /\ Room /\ Spend
              /\ Write("{") /\ stack' = Append(stack, TFrame("group", ""))
DeclareT(n) == /\ TCur.k = "group" /\ TCur.x = <<>> /\ Spend
               /\ n \in {"bf", "it"} \/ ~InsideCmd("math")
               /\ Write("\\" \o n \o " ")
               /\ stack' = [stack EXCEPT ![Len(stack)].x = <<n, TCur.ns>>, ![Len(stack)].ns = <<>>,
                                         ![Len(stack)].name = IF n \in {"bf", "it"} THEN "" ELSE "math",
                                         ![Len(stack)].cls = "sp", ![Len(stack)].open = FALSE]
DeclColorT == /\ TCur.k = "group" /\ TCur.x = <<>> /\ Spend
              /\ \E g \in Vary({"", " ", "\n"}, "") :
                   /\ Write("\\color{red}" \o g)     \* (it skips the spaces behind it)
                   /\ stack' = [stack EXCEPT ![Len(stack)].x = <<"color", TCur.ns>>, ![Len(stack)].ns = <<>>,
                                             ![Len(stack)].cls = IF g = "\n" THEN "line" ELSE "sp",
                                             ![Len(stack)].open = FALSE]
GroupShows(f) ==
  IF f.x = <<>> THEN f.ns
  ELSE f.x[2] \o (CASE f.x[1] = "color" -> << <<"fill", f.ns>> >>
                    [] f.x[1] \in {"bf", "it"} -> << <<DeclT[f.x[1]], f.ns>> >>
                    [] OTHER -> << <<"eq", FALSE, Style(f.ns, DeclT[f.x[1]])>> >>)

----------------------------------------------------------------------------
(* blocks                                                                    *)
ListsT == [itemize |-> "li", enumerate |-> "ei"]
Begin(n) == "\\begin{" \o n \o "}"
End(n) == "\\end{" \o n \o "}"
Gap == {"", " ", "\n", "\n  ", " %c\n"}
OpenList(n) == /\ TCur.k \in Blocks \ {"fig"} /\ Len(stack) + 1 < FConf.depth /\ Spend
               /\ \E g \in Vary(Gap, "\n") : \E h \in Vary({" ", "\n"}, " ") :
                    /\ Write(Begin(n) \o g \o "\\item" \o h)
                    /\ stack' = stack \o <<TFrame("list", n), [TFrame("item", "") EXCEPT !.cls = IF h = "\n" THEN "line" ELSE "sp"]>>
EndItem(st) == LET f == Top(st)
                   below == Init_(st)
               IN Show(below, << <<ListsT[Top(below).name], f.ns>> >>, "piece", FALSE)
NextItem == /\ TCur.k = "item" /\ TCur.cls # "start" /\ Spend
            /\ \E g \in Vary({"", " ", "\n", "\n  "}, "") :
                 /\ ~(TCur.cls = "line" /\ g # "" /\ At(g, 1) = "\n")
                 /\ Write(g \o "\\item ")
                 /\ stack' = Append(EndItem(stack), [TFrame("item", "") EXCEPT !.cls = "sp"])
CloseList == /\ TCur.k = "item" /\ TCur.cls # "start" /\ UNCHANGED fuel
             /\ LET st == EndItem(stack) IN
                /\ Write(End(Top(st).name))
                /\ stack' = Show(Init_(st), Top(st).ns, "piece", FALSE)
OpenQuote(n) == /\ TCur.k \in Blocks /\ Room /\ Spend
                /\ LET own == n = "tn" IN
                   /\ Write(Begin(n) \o (IF own THEN "{w}" ELSE ""))
                   /\ stack' = Append(stack, [TFrame("quote", n) EXCEPT !.ns = IF own THEN TText("w: ") ELSE <<>>])
OpenFig(n) == /\ TCur.k \in {"doc", "quote", "item"} /\ ~Inside("fig") /\ Room /\ Spend
              /\ \E o \in Vary({"", "[h]", "[htbp]"}, "[h]") : \E c \in Vary({"", "\\centering ", "\n\\centering\n"}, "\\centering ") :
                   /\ Write(Begin(n) \o o \o c)
                   /\ stack' = Append(stack, [TFrame("fig", n) EXCEPT !.cls = IF c = "" THEN "start" ELSE "sp"])
Caption == /\ TCur.k = "fig" /\ TCur.cap = <<>> /\ Room /\ Spend
           /\ Write("\\caption{") /\ stack' = Append(stack, TFrame("arg", "caption"))
\* (open finding: a line with nothing but a label is an empty line)
AfterLab == IF TCur.cls = "line" THEN "lab" ELSE "piece"
FigLabel == /\ \/ TCur.k = "fig"
               \/ TCur.name = "caption"
            /\ \E i \in 1 .. Len(stack) :
                 /\ stack[i].k = "fig" /\ stack[i].lab = <<>> /\ UNCHANGED fuel
                 /\ \E l \in Vary({"f1", "fig:a_b"}, "f1") :
                      /\ Write("\\label{" \o l \o "}")
                      /\ stack' = [stack EXCEPT ![i].lab = << <<"lab", l>> >>, ![Len(stack)].cls = AfterLab, ![Len(stack)].open = FALSE]
AlignsT == << <<"{lc}", <<"left", "center">>, <<>> >>, <<"{|r|}", <<"right">>, <<0, 1>> >>,
              <<"{ c|l r }", <<"center", "left", "right">>, <<1>> >> >>
OpenTable == /\ TCur.k \in {"doc", "quote", "fig", "item"} /\ ~Inside("cell") /\ Len(stack) + 1 < FConf.depth /\ Spend
             /\ \E a \in Vary({AlignsT[i] : i \in 1 .. Len(AlignsT)}, AlignsT[1]) : \E g \in Vary({"", " ", "\n  "}, "") :
                  /\ Write(Begin("tabular") \o a[1] \o g)
                  /\ stack' = stack \o <<[TFrame("table", "tabular") EXCEPT !.x = <<a[2], a[3], 0>>], TFrame("cell", "")>>
\* cells written in the current row
CellsT == stack[Len(stack) - 1].x[3]
EndCellT(st, n) == LET f == Top(st)
                       t == st[Len(st) - 1]
                   IN Append(SubSeq(st, 1, Len(st) - 2),
                             [t EXCEPT !.ns = Append(@, <<"cell", f.ns>>), !.x = <<@[1], @[2], n>>])
RulesT == [hline |-> "0.5pt", toprule |-> "1pt", midrule |-> "0.5pt", bottomrule |-> "1pt"]
HLine == /\ TCur.k = "cell" /\ TCur.ns = <<>> /\ CellsT = 0 /\ UNCHANGED fuel
         /\ LET t == stack[Len(stack) - 1] IN
            /\ IF t.ns = <<>> THEN TRUE ELSE Top(t.ns)[1] # "hline"
            /\ \E n \in Vary(DOMAIN RulesT, "hline") : \E g \in Vary({" ", "\n"}, " ") :
                 /\ Write("\\" \o n \o g)
                 /\ stack' = [stack EXCEPT ![Len(stack) - 1] = [t EXCEPT !.ns = Append(t.ns, <<"hline", RulesT[n]>>)],
                                           ![Len(stack)].cls = "rule"]
NextCellT == /\ TCur.k = "cell" /\ CellsT + 1 < Len(stack[Len(stack) - 1].x[1]) /\ UNCHANGED fuel
             /\ \E g \in Vary({"&", " & ", "&\n"}, "&") :
                  Write(g) /\ stack' = Append(EndCellT(stack, CellsT + 1), TFrame("cell", ""))
EmptyCells(n) == [i \in 1 .. n |-> <<"cell", <<>> >>]
EndRowT(st) == LET s == EndCellT(st, 0)
                   t == st[Len(st) - 1]
               IN [s EXCEPT ![Len(s)].ns = @ \o EmptyCells(Len(t.x[1]) - t.x[3] - 1)]
NextRowT == /\ TCur.k = "cell" /\ Spend
            /\ \E g \in Vary({"\\\\", "\\\\ ", " \\\\\n"}, "\\\\") :
                 Write(g) /\ stack' = Append(EndRowT(stack), TFrame("cell", ""))
CloseTable == /\ TCur.k = "cell" /\ UNCHANGED fuel
              /\ LET st == IF TCur.ns = <<>> /\ CellsT = 0 THEN Init_(stack) ELSE EndRowT(stack)
                     t == Top(st)
                 IN /\ \E i \in 1 .. Len(t.ns) : t.ns[i][1] = "cell"
                    /\ Write(End("tabular"))
                    /\ stack' = Show(Init_(st), << <<"table", t.x[1], t.x[2], t.ns>> >>, "piece", FALSE)

CloseT ==
  /\ TCur.k \in {"arg", "group", "quote", "fig"} /\ UNCHANGED fuel
  /\ LET f == TCur
         below == Init_(stack)
     IN CASE f.name = "caption" -> /\ f.ns # <<>> /\ Write("}")
                                   /\ stack' = [below EXCEPT ![Len(below)].cap = <<f.ns>>, ![Len(below)].cls = "piece",
                                                             ![Len(below)].open = FALSE]
          [] f.k = "arg" -> f.ns # <<>> /\ Write("}") /\ stack' = Show(below, ShowCall(f.x[1], f.ns), "piece", FALSE)
          [] f.k = "group" -> /\ f.ns # <<>> /\ Write("}")
                              /\ stack' = Show(below, GroupShows(f), "piece", FALSE)
          [] f.k = "quote" -> Write(End(f.name)) /\ stack' = Show(below, << <<"quote", f.ns>> >>, "piece", FALSE)
          [] f.k = "fig" -> /\ f.ns # <<>> /\ Write(End(f.name))
                            /\ stack' = Show(below, << <<"fig", f.cap, f.ns>> >> \o f.lab, "piece", FALSE)

----------------------------------------------------------------------------
TInit == src = (IF FConf.defs THEN TextDefs ELSE "") /\ stack = <<TFrame("doc", "")>> /\ fuel = FConf.fuel /\ turn = "" /\ done = FALSE
TStop == Len(stack) = 1 /\ TCur.ns # <<>> /\ done' = TRUE /\ UNCHANGED <<src, stack, fuel>>

TKinds == {"word", "word2", "space", "space2", "comment", "par", "break", "symbol", "formula", "display", "ref", "image", "label",
           "call", "group", "declare", "list", "item", "quote", "fig", "caption", "table", "cell", "row", "rule", "close", "stop"}
TAct(k) ==
  CASE k \in {"word", "word2"} -> \E i \in 1 .. Len(TWords) : WordT(i)
    [] k \in {"space", "space2"} -> SpaceT
    [] k = "comment" -> "comment" \in TUse /\ CommentT
    [] k = "par" -> "par" \in TUse /\ ParT
    [] k = "break" -> "br" \in TUse /\ BreakT
    [] k = "symbol" -> \E i \in 1 .. Len(TConf.symbols) : SymbolT(i)
    [] k = "formula" -> \E i \in 1 .. Len(TConf.formulas) : FormulaT(i)
    [] k = "display" -> "display" \in TUse /\ \E i \in 1 .. Len(TConf.formulas) : DisplayT(i)
    [] k = "ref" -> "ref" \in TUse /\ RefT
    [] k = "image" -> "image" \in TUse /\ ImageT
    [] k = "label" -> "label" \in TUse /\ (HeadLabelT \/ FigLabel)
    [] k = "call" -> \E n \in TUse \cap (DOMAIN InlineOf \cup MathOf \cup DOMAIN ColorOf \cup DOMAIN HeadOf) : OpenCall(n)
    [] k = "group" -> "group" \in TUse /\ OpenGroupT
    [] k = "declare" -> (\E n \in TUse \cap DOMAIN DeclT : DeclareT(n)) \/ ("color" \in TUse /\ DeclColorT)
    [] k = "list" -> \E n \in TUse \cap DOMAIN ListsT : OpenList(n)
    [] k = "item" -> NextItem
    [] k = "quote" -> \E n \in TUse \cap {"quote", "abstract", "tn"} : OpenQuote(n)
    [] k = "fig" -> \E n \in TUse \cap {"figure", "table"} : OpenFig(n)
    [] k = "caption" -> "caption" \in TUse /\ Caption
    [] k = "table" -> "tabular" \in TUse /\ OpenTable
    [] k = "cell" -> NextCellT
    [] k = "row" -> NextRowT
    [] k = "rule" -> "rule" \in TUse /\ HLine
    [] k = "close" -> CloseT \/ CloseList \/ CloseTable
    [] k = "stop" -> (~FConf.turns \/ fuel = 0) /\ TStop
TNext ==
  /\ ~done
  /\ IF ~FConf.turns
     THEN turn' = "" /\ (IF fuel = 0 /\ Len(stack) = 1 THEN TStop
                         ELSE \E k \in TKinds \ {"word2", "space2"} : TAct(k) /\ (k # "stop" => UNCHANGED done))
     ELSE IF turn = "" THEN turn' \in TKinds /\ UNCHANGED <<src, stack, fuel, done>>
     ELSE turn' = "" /\ ((TAct(turn) /\ (turn # "stop" => UNCHANGED done)) \/ UNCHANGED <<src, stack, fuel, done>>)
TEmit == done => PrintT("@@" \o ToJson([s |-> src, m |-> stack[1].ns]))
=============================================================================

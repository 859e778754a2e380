------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* The plugin as its host sees it: calls of its three functions in any       *)
(* order, by a host that remembers the compiled specifications it has got.   *)
(*                                                                         *)
(*   compile_spec(json)          a compiled specification, or an error       *)
(*   convert_math(input, spec)   the conversion under that specification, or *)
(*   convert_text(input, spec)   under the built-in one when spec is empty   *)
(*                                                                         *)
(* What a host passes: a document (kind "doc": its characters), bytes that    *)
(* are no text ("raw"), the JSON form of a specification ("spec": its name),  *)
(* other text ("bad").  A compiled specification is opaque to the host.       *)
(***************************************************************************)
EXTENDS Lexer, MacroEngine, Converter
Conf == JsonDeserialize(IOEnv.CONF)      \* mode "calls" (all sequences of len calls) or "each" input on its own
In == ndJsonDeserialize(IOEnv.DOCS)      \* what the host can pass

VARIABLES known,   \* the specifications compiled so far
          hist,    \* calls: <<function, input, specification>>
          outs     \* their results: <<"blob", name>>, <<"text", string>> or <<"error">>
vars == <<known, hist, outs>>

Builtin_ == "default"
Empty == ""
Error == <<"error">>
Conversion(fn, i, sp) ==
  LET d == In[i]
      s == IF sp = Empty THEN Builtin_ ELSE sp
      toks == ERun(EInit(Lex(d.cs, s), s))
  IN IF d.k # "doc" THEN Error
     ELSE IF Diverged(toks) THEN <<"none">>
     ELSE LET r == ConvertTree(Parse(toks.out, s), s, fn) IN IF r[1] THEN <<"text", r[2]>> ELSE Error
Compiled(i) == IF In[i].k = "spec" THEN <<"blob", In[i].sp>> ELSE Error
Result(c) == IF c[1] = "compile" THEN Compiled(c[2]) ELSE Conversion(c[1], c[2], c[3])

\* what the host may call with what it has
Calls(kn) == {<<"compile", i, Empty>> : i \in {j \in DOMAIN In : In[j].k # "doc"}} \cup
             {<<fn, i, sp>> : fn \in {"math", "text"}, i \in {j \in DOMAIN In : In[j].k \in {"doc", "raw"}}, sp \in kn \cup {Empty}}

Init == known = {} /\ hist = <<>> /\ outs = <<>>
Call(c) == /\ Conf.mode = "calls" /\ Len(hist) < Conf.len
           /\ LET r == Result(c) IN
              /\ hist' = Append(hist, c)
              /\ outs' = Append(outs, r)
              /\ known' = IF r[1] = "blob" THEN known \cup {r[2]} ELSE known
              /\ Len(hist') = Conf.len => PrintT("@@" \o ToJson([calls |-> hist', outs |-> outs']))
\* a document of its own: its specification is compiled, then it is converted both ways
Each(i) == /\ Conf.mode = "each" /\ hist = <<>>
           /\ known' = {In[i].sp}
           /\ hist' = <<<<"compile", i, Empty>>, <<"math", i, In[i].sp>>, <<"text", i, In[i].sp>>>>
           /\ outs' = <<<<"blob", In[i].sp>>, Conversion("math", i, In[i].sp), Conversion("text", i, In[i].sp)>>
           /\ PrintT("@@" \o ToJson([calls |-> hist', outs |-> outs']))
Next == IF Conf.mode = "each" THEN \E i \in DOMAIN In : Each(i) ELSE \E c \in Calls(known) : Call(c)

----------------------------------------------------------------------------
TypeOK == \A k \in DOMAIN outs : outs[k][1] \in {"blob", "text", "error", "none"}
\* a host never holds what no call gave it, and compiled specifications come from compiling only
OnlyCompiled == /\ \A s \in known : \E k \in DOMAIN outs : outs[k] = <<"blob", s>>
                /\ \A k \in DOMAIN outs : outs[k][1] = "blob" => hist[k][1] = "compile"
\* equal calls, equal results, whatever was called between
Pure == \A j, k \in DOMAIN hist : hist[j] = hist[k] => outs[j] = outs[k]
\* what is not text is not converted
NoGuess == \A k \in DOMAIN hist : In[hist[k][2]].k \in {"raw", "bad"} => outs[k] = Error
\* history only grows
Final == [][\A k \in DOMAIN outs : hist'[k] = hist[k] /\ outs'[k] = outs[k]]_vars

----------------------------------------------------------------------------
(* The functions of the package, which call the plugin and let Typst read     *)
(* what it gives: [what, block, meaning] of a call on a formula f and a       *)
(* document d, each [s |-> source, m |-> what it shows].  The source is given *)
(* as a string, a raw element or a text element.                             *)
Forms == {"str", "raw", "text"}
Blocks == {"", "true", "false"}     \* the argument block, if given
Shown(b, f, usual) == <<"eq", IF b = "" THEN usual ELSE b = "true", f.m>>
PackageCall(fn, form, b, x) ==
  CASE fn = "mi" -> <<Shown(b, x, FALSE)>>
    [] fn = "mimath" -> <<Shown(b, x, TRUE)>>
    [] fn = "mitex" -> <<Shown(b, x, TRUE)>>
    [] fn = "mitex-math" -> <<Shown(b, x, TRUE)>>
    [] fn \in {"mitext", "mitex-text"} -> x.m
=============================================================================

----------------------------- MODULE SpecTable ------------------------------
(***************************************************************************)
(* Command specifications: what their JSON forms mean, how packages are      *)
(* merged, and what the declarations of the Typst side denote.               *)
(*                                                                         *)
(* A form is an entry of a JSON specification.  Canon gives the item it      *)
(* denotes: [t, a, al, ctx] (a: argument shape, al: alias, at most one).     *)
(*                                                                         *)
(* Modes: table     items are added one at a time and the table is passed    *)
(*                  through encodings (binary, JSON), which must keep it     *)
(*        recorded  tables read from a file (name -> form)                   *)
(*        packages  lists of packages read from a file, merged one by one    *)
(*        defs      every declaration of the Typst prelude                   *)
(***************************************************************************)
EXTENDS Util, FiniteSets, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)   \* mode, len, names, aliases, patterns, nums
Docs == IF Conf.mode \in {"recorded", "packages"} THEN ndJsonDeserialize(IOEnv.DOCS) ELSE <<>>
SetOf(xs) == {xs[i] : i \in 1 .. Len(xs)}
Names == SetOf(Conf.names)
Aliases == SetOf(Conf.aliases)
Globs == SetOf(Conf.patterns)
Nums == SetOf(Conf.nums)
Ctxs == {"none", "is-math", "is-matrix", "is-cases", "is-figure", "is-table", "is-itemize", "is-enumerate"}

----------------------------------------------------------------------------
(* Forms                                                                     *)
Pats == {[kind |-> "none"], [kind |-> "greedy"]}
        \cup {[kind |-> "fixed-len", len |-> n] : n \in Nums}
        \cup {[kind |-> "range-len", min |-> a, max |-> b] : a \in Nums, b \in Nums}
        \cup {[kind |-> "glob", pattern |-> p] : p \in Globs}
Shapes == {[kind |-> "left1"], [kind |-> "infix-greedy"]} \cup {[kind |-> "right", pattern |-> p] : p \in Pats}
WithAlias(r) == {r} \cup {r @@ [alias |-> x] : x \in Aliases}
Ctx(c) == [kind |-> c]
Simple == {[kind |-> k] : k \in {"sym", "cmd0", "cmd1", "cmd2", "left1-cmd", "matrix-env", "normal-env"}}
Sugar == {[kind |-> k, alias |-> x] : k \in {"alias-sym", "greedy-cmd", "infix-cmd"}, x \in Aliases}
         \cup {[kind |-> "glob-cmd", pattern |-> p, alias |-> x] : p \in Globs, x \in Aliases}
         \cup {[kind |-> "glob-env", pattern |-> p, alias |-> x, ctx_feature |-> Ctx(c)] : p \in Globs, x \in Aliases, c \in Ctxs}
CanonCmds == UNION {WithAlias([kind |-> "cmd", args |-> s]) : s \in Shapes}
CanonEnvs == UNION {WithAlias([kind |-> "env", args |-> p, ctx_feature |-> Ctx(c)]) : p \in Pats, c \in Ctxs}
Forms == Simple \cup Sugar \cup CanonCmds \cup CanonEnvs
\* one of every kind, for tables of several items
FewForms == Simple \cup {CHOOSE f \in Forms : f.kind = k : k \in {"alias-sym", "greedy-cmd", "infix-cmd", "glob-cmd", "glob-env", "cmd", "env"}}
            \cup {[kind |-> "cmd", args |-> s] : s \in {[kind |-> "left1"], [kind |-> "infix-greedy"]}}

(* What they mean                                                            *)
PatOf(p) == CASE p.kind = "none" -> <<"none">>
              [] p.kind = "greedy" -> <<"greedy">>
              [] p.kind = "fixed-len" -> <<"fixed", p.len>>
              [] p.kind = "range-len" -> <<"range", p.min, p.max>>
              [] p.kind = "glob" -> <<"glob", p.pattern>>
ShapeOf(s) == CASE s.kind = "right" -> PatOf(s.pattern)
                [] s.kind = "left1" -> <<"left1">>
                [] s.kind = "infix-greedy" -> <<"infix">>
CtxOf(c) == IF c.kind = "none" THEN "none" ELSE DropS(c.kind, 3)
AlOf(f) == IF "alias" \in DOMAIN f THEN <<f.alias>> ELSE <<>>
CmdItem(a, al) == [t |-> "cmd", a |-> a, al |-> al]
EnvItem(a, al, ctx) == [t |-> "env", a |-> a, al |-> al, ctx |-> ctx]
Canon(f) ==
  CASE f.kind = "cmd" -> CmdItem(ShapeOf(f.args), AlOf(f))
    [] f.kind = "env" -> EnvItem(PatOf(f.args), AlOf(f), CtxOf(f.ctx_feature))
    [] f.kind = "sym" -> CmdItem(<<"none">>, <<>>)
    [] f.kind = "alias-sym" -> CmdItem(<<"none">>, <<f.alias>>)
    [] f.kind = "cmd0" -> CmdItem(<<"fixed", 0>>, <<>>)
    [] f.kind = "cmd1" -> CmdItem(<<"fixed", 1>>, <<>>)
    [] f.kind = "cmd2" -> CmdItem(<<"fixed", 2>>, <<>>)
    [] f.kind = "left1-cmd" -> CmdItem(<<"left1">>, <<>>)
    [] f.kind = "greedy-cmd" -> CmdItem(<<"greedy">>, <<f.alias>>)
    [] f.kind = "infix-cmd" -> CmdItem(<<"infix">>, <<f.alias>>)
    [] f.kind = "glob-cmd" -> CmdItem(<<"glob", f.pattern>>, <<f.alias>>)
    [] f.kind = "matrix-env" -> EnvItem(<<"none">>, <<>>, "matrix")
    [] f.kind = "normal-env" -> EnvItem(<<"none">>, <<>>, "none")
    [] f.kind = "glob-env" -> EnvItem(<<"glob", f.pattern>>, <<f.alias>>, CtxOf(f.ctx_feature))
\* and back: the canonical form of an item
PatForm(a) == CASE a[1] = "none" -> [kind |-> "none"]
                [] a[1] = "greedy" -> [kind |-> "greedy"]
                [] a[1] = "fixed" -> [kind |-> "fixed-len", len |-> a[2]]
                [] a[1] = "range" -> [kind |-> "range-len", min |-> a[2], max |-> a[3]]
                [] a[1] = "glob" -> [kind |-> "glob", pattern |-> a[2]]
ShapeForm(a) == CASE a[1] = "left1" -> [kind |-> "left1"]
                  [] a[1] = "infix" -> [kind |-> "infix-greedy"]
                  [] OTHER -> [kind |-> "right", pattern |-> PatForm(a)]
FormOf(i) == (IF i.al = <<>> THEN <<>> ELSE [alias |-> i.al[1]]) @@
             (IF i.t = "cmd" THEN [kind |-> "cmd", args |-> ShapeForm(i.a)]
              ELSE [kind |-> "env", args |-> PatForm(i.a),
                    ctx_feature |-> Ctx(IF i.ctx = "none" THEN "none" ELSE "is-" \o i.ctx)])
CanonTable(t) == [n \in DOMAIN t |-> Canon(t[n])]
FormTable(t) == [n \in DOMAIN t |-> FormOf(t[n])]

----------------------------------------------------------------------------
(* Declarations of the Typst side (packages/mitex/specs/prelude.typ):        *)
(* [fn, args..] with the form they leave in the package's specification, and *)
(* the key under which a given handler is found (none if there is none).     *)
NoHash(s) == IF StartsWith(s, "#") THEN DropS(s, 1) ELSE s
DefCalls ==
  {[fn |-> f, s |-> x, h |-> h] : f \in {"define-sym", "define-greedy-cmd", "define-infix-cmd"}, x \in Aliases, h \in BOOLEAN}
  \cup {[fn |-> "define-glob-cmd", pat |-> p, s |-> x, h |-> h] : p \in Globs, x \in Aliases, h \in BOOLEAN}
  \cup {[fn |-> "define-cmd", num |-> n, al |-> al, h |-> h] : n \in Nums, al \in {<<x>> : x \in Aliases} \cup {<<>>}, h \in BOOLEAN}
  \cup {[fn |-> "define-env", num |-> n, ctx |-> c, al |-> al, h |-> h] :
          n \in {<<k>> : k \in Nums} \cup {<<>>}, c \in Ctxs, al \in {<<x>> : x \in Aliases} \cup {<<>>}, h \in BOOLEAN}
  \cup {[fn |-> "define-glob-env", pat |-> p, ctx |-> c, al |-> <<x>>, h |-> h] : p \in Globs, c \in Ctxs, x \in Aliases, h \in BOOLEAN}
  \cup {[fn |-> "left1-op", s |-> x, h |-> FALSE] : x \in Aliases}
  \cup {[fn |-> f, h |-> FALSE] : f \in {"sym", "cmd1", "cmd2", "matrix-env"}}
  \cup {[fn |-> "of-sym", h |-> TRUE]}
ItemOf(d) ==
  CASE d.fn = "define-sym" -> CmdItem(<<"none">>, <<d.s>>)
    [] d.fn = "define-greedy-cmd" -> CmdItem(<<"greedy">>, <<d.s>>)
    [] d.fn = "define-infix-cmd" -> CmdItem(<<"infix">>, <<d.s>>)
    [] d.fn = "define-glob-cmd" -> CmdItem(<<"glob", d.pat>>, <<d.s>>)
    [] d.fn = "define-cmd" -> CmdItem(<<"fixed", d.num>>, d.al)
    [] d.fn = "define-env" -> EnvItem(IF d.num = <<>> THEN <<"none">> ELSE <<"fixed", d.num[1]>>, d.al, CtxOf(Ctx(d.ctx)))
    [] d.fn = "define-glob-env" -> EnvItem(<<"glob", d.pat>>, d.al, CtxOf(Ctx(d.ctx)))
    [] d.fn = "left1-op" -> CmdItem(<<"left1">>, <<d.s>>)
    [] d.fn \in {"sym", "of-sym"} -> CmdItem(<<"none">>, <<>>)
    [] d.fn = "cmd1" -> CmdItem(<<"fixed", 1>>, <<>>)
    [] d.fn = "cmd2" -> CmdItem(<<"fixed", 2>>, <<>>)
    [] d.fn = "matrix-env" -> EnvItem(<<"none">>, <<>>, "matrix")
\* the name the converter emits is the key of the handler
ScopeKey(name, d) == IF ~d.h THEN <<>>
                     ELSE IF ItemOf(d).al = <<>> THEN <<name>> ELSE <<NoHash(ItemOf(d).al[1])>>

----------------------------------------------------------------------------
VARIABLES forms,   \* table as given: name -> form
          items,   \* name -> item
          enc,     \* <<"table">>, <<"bytes", items>> or <<"json", forms>>
          src, at, over
vars == <<forms, items, enc, src, at, over>>
Plain == <<"table">>

Init == /\ forms = <<>> /\ items = <<>> /\ enc = Plain /\ at = 0 /\ over = FALSE
        /\ src \in CASE Conf.mode = "table" -> {0}
                     [] Conf.mode = "defs" -> {[name |-> n, d |-> d] : n \in Names, d \in DefCalls}
                     [] OTHER -> 1 .. Len(Docs)
Put(m, n, x) == IF n \in DOMAIN m THEN [m EXCEPT ![n] = x] ELSE (n :> x) @@ m
Add(n, f) == /\ Conf.mode = "table" /\ ~over /\ at < Conf.len /\ enc = Plain
             /\ forms' = Put(forms, n, f) /\ items' = Put(items, n, Canon(f))
             /\ at' = at + 1 /\ UNCHANGED <<enc, src, over>>
ToBytes == /\ Conf.mode = "table" /\ ~over /\ enc = Plain /\ enc' = <<"bytes", items>> /\ UNCHANGED <<forms, items, src, at, over>>
ToJson_ == /\ Conf.mode = "table" /\ ~over /\ enc = Plain /\ enc' = <<"json", FormTable(items)>> /\ UNCHANGED <<forms, items, src, at, over>>
FromBytes == /\ ~over /\ enc[1] = "bytes" /\ items' = enc[2] /\ enc' = Plain /\ UNCHANGED <<forms, src, at, over>>
FromJson == /\ ~over /\ enc[1] = "json" /\ items' = CanonTable(enc[2]) /\ enc' = Plain /\ UNCHANGED <<forms, src, at, over>>
Tell(x) == PrintT("@@" \o ToJson(x))
Finish == /\ Conf.mode = "table" /\ ~over /\ enc = Plain /\ at > 0 /\ over' = TRUE
          /\ Tell([forms |-> forms, items |-> items]) /\ UNCHANGED <<forms, items, enc, src, at>>
Whole == /\ Conf.mode = "recorded" /\ ~over /\ over' = TRUE
         /\ items' = CanonTable(Docs[src].forms) /\ forms' = Docs[src].forms
         /\ Tell([id |-> src, items |-> items']) /\ UNCHANGED <<enc, src, at>>
\* one package after the other, the later one wins
Merge == /\ Conf.mode = "packages" /\ ~over
         /\ LET ps == Docs[src].packages IN
            IF at < Len(ps)
            THEN /\ forms' = ps[at + 1] @@ forms /\ items' = CanonTable(ps[at + 1]) @@ items
                 /\ at' = at + 1 /\ UNCHANGED over
            ELSE over' = TRUE /\ Tell([id |-> src, items |-> items]) /\ UNCHANGED <<forms, items, at>>
         /\ UNCHANGED <<enc, src>>
Declare == /\ Conf.mode = "defs" /\ ~over /\ over' = TRUE
           /\ items' = (src.name :> ItemOf(src.d)) /\ Tell([name |-> src.name, d |-> src.d, item |-> ItemOf(src.d), key |-> ScopeKey(src.name, src.d)])
           /\ UNCHANGED <<forms, enc, src, at>>
AddForms == IF Conf.len = 1 THEN Forms ELSE FewForms
Next == \/ \E n \in Names, f \in AddForms : Add(n, f)
        \/ ToBytes \/ ToJson_ \/ FromBytes \/ FromJson \/ Finish \/ Whole \/ Merge \/ Declare

----------------------------------------------------------------------------
\* the items are always the meaning of what was given
Faithful == Conf.mode # "defs" => items = CanonTable(forms)
\* canonical forms denote the items they were made from
RoundTrip == CanonTable(FormTable(items)) = items
\* an item of a merged specification is the one of the last package that has it
LaterWins == (Conf.mode = "packages" /\ over) =>
  \A n \in DOMAIN items :
    LET ps == Docs[src].packages
        K == {i \in 1 .. Len(ps) : n \in DOMAIN ps[i]}
        k == CHOOSE i \in K : \A j \in K : j <= i
    IN items[n] = Canon(ps[k][n])
EncodingKeeps == [][enc # Plain => items' = items]_vars
=============================================================================

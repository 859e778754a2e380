-------------------------------- MODULE Spec --------------------------------
(***************************************************************************)
(* Command specifications.  Several may be loaded; each is a table from     *)
(* names to items, known by its identifier.  An item is                     *)
(*   [t |-> "cmd", a |-> shape, al |-> alias]                               *)
(*   [t |-> "env", a |-> shape, al |-> alias, ctx |-> context]              *)
(* where al is absent if the item has no alias, and a shape is              *)
(*   <<"none">> <<"n", max>> <<"greedy">> <<"glob", pattern>>               *)
(*   <<"left1">> <<"infix">>                                                *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils

Tables == JsonDeserialize(IOEnv.SPECS)

HasName(id, n) == n \in DOMAIN Tables[id]
HasCmd(id, n) == HasName(id, n) /\ Tables[id][n].t = "cmd"
HasEnv(id, n) == HasName(id, n) /\ Tables[id][n].t = "env"
Shape(id, n) == Tables[id][n].a
HasAlias(id, n) == "al" \in DOMAIN Tables[id][n]
AliasOf(id, n) == IF HasAlias(id, n) THEN Tables[id][n].al ELSE n
CtxOf(id, n) == Tables[id][n].ctx

CharTable == JsonDeserialize("data/chars.json")
NlSet == {CharTable.nl[i] : i \in 1 .. Len(CharTable.nl)}
WsSet == {CharTable.ws[i] : i \in 1 .. Len(CharTable.ws)}
\* white space around names, labels and options is dropped
TrimSet == WsSet \cup NlSet
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ At(s, 1) \in TrimSet THEN TrimL(DropS(s, 1)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ At(s, Len(s)) \in TrimSet THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
=============================================================================

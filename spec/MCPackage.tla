----------------------------- MODULE MCPackage ------------------------------
(* Calls of the package's functions on given formulas and documents.         *)
EXTENDS Plugin
VARIABLE call
Given == JsonDeserialize(IOEnv.GIVEN)   \* formulas, documents: sequences of [s, m]
PInit_ == call = <<>> /\ Init
PNext_ == /\ call = <<>> /\ UNCHANGED vars
          /\ \E form \in Forms :
               \/ \E fn \in {"mi", "mimath", "mitex", "mitex-math"}, b \in Blocks, x \in ToSet(Given.formulas) :
                    call' = <<fn, form, b, x.s, PackageCall(fn, form, b, x)>>
               \/ \E fn \in {"mitext", "mitex-text"}, x \in ToSet(Given.documents) :
                    call' = <<fn, form, "", x.s, PackageCall(fn, form, "", x)>>
          /\ PrintT("@@" \o ToJson([call |-> call']))
\* a display function shows one formula
OneFormula == call # <<>> /\ call[1] \notin {"mitext", "mitex-text"} => Len(call[5]) = 1
=============================================================================

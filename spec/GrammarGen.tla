---------------------------- MODULE GrammarGen ----------------------------
(* every small grammar, to be run on all small trees, is a behaviour *)
EXTENDS SmallGrammars, SequencesExt, TLC, Json

Trees == SetToSeq(TreeSet)

VARIABLE g, todo
Init == g \in Grammars /\ todo = TRUE
Next == todo /\ todo' = FALSE /\ UNCHANGED g /\ PrintT("BEH " \o ToJson([g |-> g, ts |-> Trees]))
=============================================================================

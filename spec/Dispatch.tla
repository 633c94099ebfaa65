------------------------------ MODULE Dispatch ------------------------------
(* All contracts: which clauses a completed call must satisfy.             *)
EXTENDS Matching

OpClauses(e, ins) ==
  CASE e.op \in MatchOps -> MatchClauses(e, ins)
    [] e.op \in ReachOps -> ReachClauses(e, ins)
    [] e.op \in WordOps -> WordClauses(e, ins)
    [] e.op \in DrawOps -> DrawClauses(e, ins)
    [] e.op \in TapeOps -> TapeClauses(e, ins)
    [] e.op \in CliOps -> CliClauses(e, ins)
    [] e.op \in SigmaOps -> SigmaClauses(e, ins)
    [] e.op \in LaOps -> LaClauses(e, ins)
    [] e.op \in TableOps -> TableClauses(e, ins)
    [] e.op \in {"encode", "decode"} -> EncodeClauses(e, ins)
    [] e.op = "factor_weight" -> FactorClauses(e, ins)
    [] e.op = "replace" -> ReplaceClauses(e, ins)
    [] e.op = "determinize" -> DetClauses(e, ins)
    [] e.op = "det_dist" -> DetDistClauses(e, ins)
    [] e.op = "minimize" -> MinClauses(e, ins)
    [] e.op \in SPOps -> SPClauses(e, ins)
    [] e.op \in WeightedOps -> WeightedClauses(e, ins)
    [] e.op \in DistanceOps -> DistanceClauses(e, ins)
    [] e.op \in MorphismOps -> MorphismClauses(e, ins)
    [] e.op \in TidyOps -> TidyClauses(e, ins)
    [] e.op \in RationalOps -> RationalClauses(e, ins)
    [] e.op = "compose" -> ComposeClauses(e, ins)
    [] e.op = "io.roundtrip" -> RoundTripClauses(e)
    [] e.op = "io.symt" -> SymtClauses(e)
    [] e.op = "io.reject" -> RejectClauses(e)
    [] e.op = "io.load" -> LoadClauses(e)
    [] e.op = "io.text" -> TextClauses(e)
    [] e.op = "io.symtext" -> SymTextClauses(e)
    [] e.op \in SymbolOps -> SymbolClauses(e, ins)
    [] e.op = "w.laws" -> LawClauses(e)
    [] e.op = "w.near" -> NearClauses(e)
    [] e.op = "isomorphic" -> IsoClauses(e, ins)
    [] e.op = "equal" -> EqualClauses(e, ins)
    [] e.op = "queue" -> QueueClauses(e, ins)
    [] e.op = "randgen" -> RandGenClauses(e, ins)
    [] e.op \in PathOps -> PathClauses(e, ins)
    [] e.op = "keep" -> KeepClauses(e, ins)
    [] e.op = "pipe" -> PipeClauses(e, ins)
    [] e.op = "io.layout" -> LayoutClauses(e)
\* a session on a lazy machine: the materialised table also meets the contract of the operation
Clauses(e, ins) ==
  IF e.op = "lazy"
  THEN SessionClauses(e, ins) \cup (IF e.of = "table" THEN {} ELSE OpClauses([e EXCEPT !.op = e.of], ins))
  ELSE OpClauses(e, ins)
=============================================================================

---------------------------- MODULE ProtoTrace ----------------------------
(* parsers and ProtoWire: see Cursor *)
EXTENDS Cursor, ProtoWire

Doc(r, d) == Fields(r.msgs, r.docs[d].b, 1, Len(r.docs[d].b) + 1, r.root, <<>>, "doc")

\* two fields of the same name in one message
RECURSIVE Latent(_)
Latent(F) ==
  \/ \E i, j \in 1 .. Len(F) : i < j /\ ~F[i].leaf /\ F[i].l.string # <<>> /\ F[i].l.string = F[j].l.string
  \/ \E i \in 1 .. Len(F) : Latent(F[i].c)

LatentCall(r, s) ==
  LET want == IF kind = "junk" \/ Latent(forest) THEN "err" ELSE "ok" IN
  /\ Count(IF kind # "doc" THEN 8 ELSE IF want = "ok" THEN 6 ELSE 7)
  /\ IF kind = "lenient" \/ kind = "lost" \/ s.out = want THEN TRUE ELSE Bad(r, s, want)

Init == InitCursor
Next == LET r == Cases[c] IN
  IF k < Len(r.steps) /\ r.steps[k + 1].op = "latent" /\ r.steps[k + 1].out # "panic"
  THEN LatentCall(r, r.steps[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<c, kind, forest, pos>>
  ELSE NextCursor(Doc)

Done == PrintStats(CursorStats \o <<"nothing to merge", "something to merge">>)
=============================================================================

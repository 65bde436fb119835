---------------------------- MODULE JsonTrace ----------------------------
(* parsers and JsonText: see Cursor *)
EXTENDS Cursor, JsonText

Doc(r, d) == DocOf(r.docs[d])

Init == InitCursor
Next == NextCursor(Doc)
Done == PrintStats(CursorStats)
=============================================================================

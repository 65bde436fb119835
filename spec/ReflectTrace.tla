---------------------------- MODULE ReflectTrace ----------------------------
(* parsers and GoValues: see Cursor *)
EXTENDS Cursor, GoValues

Doc(r, d) == DocOf(r.docs[d])

Init == InitCursor
Next == NextCursor(Doc)
Done == PrintStats(CursorStats)
=============================================================================

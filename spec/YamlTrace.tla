---------------------------- MODULE YamlTrace ----------------------------
(* parsers and YamlText: see Cursor *)
EXTENDS Cursor, YamlText

Doc(r, d) == DocOf(r.docs[d])

Init == InitCursor
Next == NextCursor(Doc)
Done == PrintStats(CursorStats)
=============================================================================

---------------------------- MODULE XmlTrace ----------------------------
(* parsers and XmlText: see Cursor *)
EXTENDS Cursor, XmlText

Doc(r, d) == DocOf(r, r.docs[d])

Init == InitCursor
Next == NextCursor(Doc)
Done == PrintStats(CursorStats)
=============================================================================

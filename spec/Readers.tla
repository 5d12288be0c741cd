------------------------------ MODULE Readers ------------------------------
(* Observed reads of weather files and component files. *)
EXTENDS ReadFile
SInit(m) == [n |-> 0]
SStep(m, st, e) == CASE e.op = "file" -> <<st, File(e)>> [] e.op = "tree" -> <<st, Tree(e)>>
=============================================================================

------------------------------ MODULE ExportModel ------------------------------
(* All short file names over the characters which matter for extensions, with   *)
(* and without a directory: theorems about the names of files and functions;    *)
(* the names are printed and used in the real code.                             *)
EXTENDS MeshExport, Json
CONSTANTS MaxLen
VARIABLES name
Chars == {"a", "m", ".", "c", "s", "v"}
Init == name \in {"", "sub.d/"}
Core == BaseName(name)
\* no hidden files and no directories
Next == Len(Core) < MaxLen /\ \E c \in Chars : (Core = "" => c # ".") /\ name' = name \o c
Spec == Init /\ [][Next]_name
Names ==
  Core # "" =>
    /\ \A t \in {".m", ".csv"} :
         LET f == WithExt(name, t)
         IN EndsWith(f, t) /\ WithExt(f, t) = f /\ SubSeq(f, 1, Len(name)) = name
            /\ (f = name \/ f = name \o t)
    /\ FunctionName(name) \o ".m" = BaseName(WithExt(name, ".m"))
    /\ FunctionName(FunctionName(name) \o ".m") = FunctionName(name)
    /\ \A i \in 1..Len(FunctionName(name)) : SubSeq(FunctionName(name), i, i) # "/"
Short == Len(Core) < MaxLen /\ Core # ""
EmitB == Short => PrintT("BEH" \o ToJson(<<name>>))
===============================================================================

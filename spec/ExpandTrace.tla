----------------------------- MODULE ExpandTrace -----------------------------
(* Judges recorded extractions and reassemblies of real tables against the   *)
(* promises of Expand.tla: OwnFile, Inside, Honest, RoundTrip, SameFiles,    *)
(* Refused, NothingElse. A record is one table: the storage operations of    *)
(* its extraction, and what came of every run made with it.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES n
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
Ok(r) == r = "ok"
V(c, name, bad) == IF bad THEN {name} ELSE {}
----------------------------------------------------------------------------
\* OwnFile, Inside. An entry of a log: <<operation, path, lower-case path, outcome>>
Creates(log) == SelectSeq(log, LAMBDA e : e[1] \in {"create", "write_file"} /\ e[4] = "ok")
OwnFile(log) == LET w == Creates(log) IN Cardinality({w[k][3] : k \in DOMAIN w}) = Len(w)
Under(root, p) == Len(p) >= Len(root) /\ SubSeq(p, 1, Len(root)) = root /\ \A k \in DOMAIN p : p[k] \notin {"..", "."}
InsideDir(root, log) == \A k \in DOMAIN log : log[k][1] \in {"create", "write_file", "mkdir"} => Under(root, log[k][2])
\* a file is never named like a directory
NoClash(log) == {log[k][3] : k \in {j \in DOMAIN log : log[j][1] = "mkdir"}} \cap {log[k][3] : k \in {j \in DOMAIN log : log[j][1] # "mkdir"}} = {}
Refusals(log) == \E k \in DOMAIN log : log[k][4] = "refused"
Naming(c) == V(c, "two parts share a file", ~OwnFile(c.log)) \cup V(c, "a path outside the target directory", ~InsideDir(c.root, c.log))
             \cup V(c, "a file named like a directory", ~NoClash(c.log)) \cup V(c, "a path that cannot be created", Refusals(c.log))
\* RoundTrip
Round(c) == V(c, "extraction fails", ~Ok(c.write)) \cup V(c, "reading fails", Ok(c.write) /\ ~Ok(c.read))
            \cup V(c, "the table changes", Ok(c.write) /\ Ok(c.read) /\ c.diff # <<>>)
            \cup (IF c.real = "no" THEN {} ELSE
                  V(c, "extraction to a disk fails", ~Ok(c.rwrite)) \cup V(c, "reading from a disk fails", Ok(c.rwrite) /\ ~Ok(c.rread))
                  \cup V(c, "the table changes on a disk", Ok(c.rwrite) /\ Ok(c.rread) /\ c.rdiff # <<>>)
                  \cup V(c, "the files depend on the file system", Ok(c.write) /\ Ok(c.rwrite) /\ c.tree # <<>>))
\* Honest: r.failed operations were made to fail
FaultRun(c, r) ==
  IF r.res = "panic" THEN V(c, r.dir \o " aborts", TRUE)
  ELSE IF r.failed > 0 THEN V(c, r.dir \o " reports success although the storage failed", r.res = "ok")
  ELSE V(c, r.dir \o " fails without a failure", r.res # "ok") \cup V(c, r.dir \o " is incomplete", r.res = "ok" /\ r.whole # <<>>)
\* SameFiles, RoundTrip under every order of the workers
SchedRun(c, r) == V(c, r.dir \o " fails in some order", ~Ok(r.res)) \cup V(c, r.dir \o " depends on the order", Ok(r.res) /\ r.diff # <<>>)
                  \cup V(c, "two parts share a file in some order", ~OwnFile(r.log))
----------------------------------------------------------------------------
\* Refused, NothingElse. r.dir: directory ("" at the top), r.name, r.ext, r.how, r.diff: <<kind of stream, number, what, tags>>
JsonIndex == {"collections.json", "gameitems.json", "images.json", "sounds.json", "fonts.json"}
OldMaterials == {"materials.json", "materials-old.json", "materials-physics-old.json"}
Role(r) == CASE r.dir = "" /\ r.name \in {"version.txt", "gamedata.json", "script.vbs"} -> "required"
             [] r.dir = "" /\ r.name \in JsonIndex -> "index"
             [] r.dir = "" /\ r.name \in {"info.json", "renderprobes.json"} \cup OldMaterials -> "optional"
             [] r.dir = "" /\ r.ext = "png" -> "picture"
             [] r.dir = "gameitems" /\ r.ext = "json" -> "required"
             [] r.dir = "gameitems" /\ r.ext \in {"obj", "glb", "gltf"} -> "mesh"
             [] r.dir = "gameitems" /\ r.ext = "bin" -> "buffer"
             [] r.dir \in {"images", "sounds", "fonts"} -> "raw"
             [] OTHER -> "unknown"
\* must the reader refuse?
MustRefuse(r) ==
  CASE r.how = "gone" -> Role(r) \in {"required", "raw", "buffer"}
    [] r.name = "script.vbs" -> FALSE
    [] r.how \in {"retype1", "retype2"} -> FALSE
    [] r.name = "version.txt" -> r.how \in {"empty", "junk"}
    [] Role(r) \in {"required", "index", "optional"} -> TRUE
    [] Role(r) \in {"mesh", "buffer"} -> IF r.ext = "obj" THEN r.how \in {"empty", "junk", "comment"} ELSE r.how # "tail"
    [] r.dir = "images" /\ r.ext = "bmp" -> r.how \in {"empty", "junk", "half"}
    [] r.dir = "sounds" /\ r.ext = "wav" -> r.how \in {"empty", "junk"}
    [] OTHER -> FALSE
\* if it does not refuse, nothing at all may be lost
\* (a value nothing can hold is refused, or it is a value nobody reads)
MustKeep(r) == r.how \in {"retype1", "retype2"} \/ (r.how = "tail" /\ (r.ext \in {"glb", "gltf", "bin"} \/ (r.dir = "images" /\ r.ext = "bmp")))
Count == [i \in {"collections.json"} |-> "SCOL"] @@ [i \in {"gameitems.json"} |-> "SEDT"] @@ [i \in {"images.json"} |-> "SIMG"]
         @@ [i \in {"sounds.json"} |-> "SSND"] @@ [i \in {"fonts.json"} |-> "SFNT"]
Parts == [i \in {"collections.json"} |-> "GameStg/Collection"] @@ [i \in {"gameitems.json"} |-> "GameStg/GameItem"] @@ [i \in {"images.json"} |-> "GameStg/Image"]
         @@ [i \in {"sounds.json"} |-> "GameStg/Sound"] @@ [i \in {"fonts.json"} |-> "GameStg/Font"]
\* may the absence of the file show in this way?
MayLose(r, d) ==
  CASE Role(r) = "index" -> \/ d[1] = Parts[r.name] /\ d[3] = "missing"
                            \/ d[1] = "GameStg/GameData" /\ ToSet(d[4]) \subseteq {Count[r.name]}
    [] r.name = "info.json" -> d[1] = "GameStg/CustomInfoTags" \/ d[5] = "TableInfo"
    [] r.name = "renderprobes.json" -> d[1] = "GameStg/GameData" /\ ToSet(d[4]) \subseteq {"RPRB"}
    [] r.name \in OldMaterials -> d[1] = "GameStg/GameData" /\ ToSet(d[4]) \subseteq {"MATE", "PHMA", "MASI", "MATR"}
    [] Role(r) = "picture" -> d[1] = "TableInfo/Screenshot"
    [] Role(r) = "mesh" -> d[1] = "GameStg/GameItem" /\ d[2] = r.owner /\ \A t \in ToSet(d[4]) : t \in {"M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI", "M3AY", "M3AX", "M3DX", "M3IX", "order"}
    [] OTHER -> FALSE
DamageRun(c, r) ==
  IF r.res = "panic" THEN V(c, "reading aborts", TRUE)
  ELSE V(c, "a " \o r.how \o " file is not refused", MustRefuse(r) /\ Ok(r.res))
       \cup V(c, "an optional file is not optional", r.how = "gone" /\ Role(r) \in {"index", "optional", "picture", "mesh"} /\ ~Ok(r.res))
       \cup V(c, "more is lost than the file held", r.how = "gone" /\ Ok(r.res) /\ ~MustRefuse(r) /\ \E k \in DOMAIN r.diff : ~MayLose(r, r.diff[k]))
       \cup V(c, "a damaged file is half read", MustKeep(r) /\ Ok(r.res) /\ r.diff # <<>>)
       \cup V(c, "a file nobody knows about", Role(r) = "unknown")
\* parts of a table file
TableNeeds(r) == \/ r.stg # "" /\ r.kind \in {"Version", "GameData", "GameItem", "Image", "Sound", "Font", "Collection"} /\ r.stg = "GameStg"
                 \/ r.stg = "" /\ r.kind \in {"GameStg", "TableInfo"}
TableRun(c, r) ==
  IF r.res = "panic" THEN V(c, "reading a table aborts", TRUE)
  ELSE V(c, "a table without a part is not refused", TableNeeds(r) /\ Ok(r.res))
       \cup V(c, "a table loses more than the part", ~TableNeeds(r) /\ Ok(r.res) /\ \E k \in DOMAIN r.diff : ~(r.diff[k][1] = "GameStg/CustomInfoTags" \/ r.diff[k][5] = "TableInfo"))
       \cup V(c, "an optional part is not optional", ~TableNeeds(r) /\ ~Ok(r.res))
----------------------------------------------------------------------------
Say(c, at, why) == why = {} \/ PrintT("VP " \o ToJson([id |-> c.id, at |-> at, why |-> SetToSeq(why)]))
Judge(c) ==
  /\ CASE c.mode = "round" -> Say(c, 0, Round(c))
       [] c.mode = "names" -> Say(c, 0, Naming(c) \cup V(c, "extraction fails", ~Ok(c.write)))
       [] c.mode = "fault" -> /\ Say(c, 0, V(c, "extraction fails", ~Ok(c.write)) \cup V(c, "reading fails", Ok(c.write) /\ ~Ok(c.read)))
                              /\ \A k \in DOMAIN c.runs : Say(c, k, FaultRun(c, c.runs[k]))
       [] c.mode = "sched" -> \A k \in DOMAIN c.runs : Say(c, k, SchedRun(c, c.runs[k]))
       [] c.mode = "damage" -> /\ Say(c, 0, V(c, "extraction fails", ~Ok(c.write)) \cup V(c, "reading fails", Ok(c.write) /\ ~Ok(c.read)))
                               /\ \A k \in DOMAIN c.runs : Say(c, k, DamageRun(c, c.runs[k]))
                               /\ \A k \in DOMAIN c.truns : Say(c, Len(c.runs) + k, TableRun(c, c.truns[k]))
Init == n = 0
Next == n < Len(Cases) /\ n' = n + 1 /\ Judge(Cases[n + 1])
=============================================================================

----------------------------- MODULE Container -----------------------------
(* A table file as the library's users see it, the script file beside it, and *)
(* every operation the library offers on it.                                  *)
(*                                                                            *)
(* f is the content of the table file: one value per part.  mac is the signed *)
(* content at the moment the stored signature was computed.  side maps the    *)
(* path of a script file to its content, a record with its bytes, the text   *)
(* those bytes mean, and whether they are valid text; NoFile when absent.     *)
EXTENDS Naturals, Sequences, TLC
CONSTANT W            \* the lock counter counts modulo W * W: <<high, low>>, <<>> = absent

Parts == {"version", "info", "tags", "tagvals", "settings", "rawset", "lock", "codeb", "script",
          "items", "images", "sounds", "fonts", "colls", "extra"}
\* settings: meaning of the settings record without script and lock counter; rawset: its stored form
Signed(f) == <<f.version, f.signinfo, f.tags, f.tagvals, f.rawset, f.lock, f.codeb, f.colls>>

IsLocked(f) == f.lock # <<>> /\ f.lock[2] % 2 = 1
Inc(c) == IF c = <<>> THEN <<0, 1>>
          ELSE IF c[2] = W - 1 THEN <<(c[1] + 1) % W, 0>> ELSE <<c[1], c[2] + 1>>

\* ---- what each operation makes of the file (the result of the call is separate)
AfterLock(f)   == IF IsLocked(f) THEN f ELSE [f EXCEPT !.lock = Inc(@)]
AfterUnlock(f) == IF IsLocked(f) THEN [f EXCEPT !.lock = Inc(@)] ELSE f
AfterSettings(f, new) == [f EXCEPT !.settings = new]
AfterImport(f, s) == [f EXCEPT !.codeb = s.bytes, !.script = s.text]
\* lossless conversion keeps pixels and everything else about the image; only the stored form changes
Converted(i) == [i EXCEPT !.kind = "file", !.ext = "webp", !.conv = FALSE]
AfterWebp(f) == [f EXCEPT !.images = [k \in 1..Len(@) |-> IF @[k].conv THEN Converted(@[k]) ELSE @[k]]]
WebpReport(f) == LET c == SelectSeq(f.images, LAMBDA i : i.conv) IN
                 [k \in 1..Len(c) |-> <<c[k].name, c[k].ext, "webp">>]
\* reading everything and writing it to the same path keeps every part the library knows
AfterRewrite(f) == [f EXCEPT !.extra = ""]

\* operations that compute the signature anew
Signs(op, f) == \/ op \in {"import", "setgd", "rewrite", "minimal"}
                \/ op = "lock" /\ ~IsLocked(f)
                \/ op = "unlock" /\ IsLocked(f)
\* operations that must leave the file byte for byte as it was
Untouched(op, f) == \/ op \in {"is_locked", "extract", "edit", "read", "verify", "open", "query", "paths"}
                    \/ op = "lock" /\ IsLocked(f)
                    \/ op = "unlock" /\ ~IsLocked(f)

\* ---- the script file
NoFile == [bytes |-> "absent", text |-> "absent", ok |-> FALSE]
Exists(s) == s.bytes # "absent"
Extracted(f) == [bytes |-> f.script, text |-> f.script, ok |-> TRUE]
=============================================================================

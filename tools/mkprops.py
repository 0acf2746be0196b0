#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))

p("P01","A table written to a file is read back as the same table",
 "For every table whose part counters match its parts, writing it (to a file or to bytes) and opening it again yields an equal table: version, script, info fields and custom tags, settings, items, images, sounds, fonts and collections, with their order. Every part of the table is stored in the file, nothing else is, and re-writing the table that was read gives a file that reads back identically again.",
 ["inputs"],"every table: any number (including none) and combination of items, images (encoded, bitmap, linked), sounds, fonts, collections, info fields, custom tags and file version",
 "The tests write a handful of fixed tables and one blank table; interactions between part counts, optional parts, versions and info streams are sampled, not covered.",
 ["src/vpx/mod.rs","src/vpx/tableinfo.rs","src/vpx/custominfotags.rs","src/vpx/image.rs","src/vpx/sound.rs","src/vpx/font.rs","src/vpx/collection.rs","src/vpx/version.rs"],
 [("write_vpx / read_vpx stream by stream","src/vpx/mod.rs"),("part counters drive the reader","src/vpx/mod.rs")],
 [("compound file streams","one stream per part plus settings, version, info and signature","src/vpx/mod.rs")],
 ["vpx::to_bytes","vpx::from_bytes","vpx::write","vpx::read"])
p("P02","Every item's data survives reading and writing, field by field",
 "For each kind of table item, reading a stored item and writing it again keeps the value of every field that item kind defines, whatever subset of the fields is present and in whatever order they are stored. A field that is absent gets its default value or stays absent, and a repeated field takes its last value.",
 ["inputs"],"every item kind, every subset and order of its stored fields, every field value (including special floats, empty, non-ASCII and maximal strings)",
 "Unit tests round-trip one random or fully populated value per item kind through the writer's own order; missing, reordered, repeated or boundary-valued fields are not exercised.",
 ["src/vpx/gameitem.rs","src/vpx/gameitem/*.rs","src/vpx/biff.rs"],
 [("per-kind tag dispatch and canonical write order","src/vpx/gameitem/*.rs"),("shared attributes and timer sub-tables","src/vpx/gameitem/select.rs")],
 [("item fields","current value of every field while records are consumed","src/vpx/gameitem/*.rs")],
 ["vpx::gameitem::read","vpx::to_bytes streams"])
p("P03","Table settings survive reading and writing, field by field",
 "Reading stored table settings (physics, camera, lighting, materials in both generations, render probes, colours, counters, lock counter, script) and writing them again keeps every defined field, for any subset and order of fields (a material count precedes the materials it counts) and for every supported file version. Absent optional settings stay absent.",
 ["inputs"],"every subset and order of the settings fields, every file version class, every value",
 "Tests cover one default and one populated settings record; optional/version-dependent combinations are exponential.",
 ["src/vpx/gamedata.rs","src/vpx/material.rs","src/vpx/renderprobe.rs","src/vpx/color.rs","src/vpx/model.rs"],
 [("tag dispatch and canonical write order","src/vpx/gamedata.rs"),("fixed-size legacy material records","src/vpx/material.rs")],
 [("settings fields","value of every field while records are consumed","src/vpx/gamedata.rs")],
 ["vpx::gamedata::read_all_gamedata_records","vpx::gamedata::write_all_gamedata_records"])
p("P04","Unknown stored data never disturbs the data around it",
 "When stored table data contains fields this library does not know, or known fields with extra trailing bytes, every known field before and after is still read with its own value. The generic record reader consumes exactly the declared size of each record, whatever part of it the caller reads, and writing then reading any sequence of typed values returns the same values.",
 ["inputs","programs"],"every sequence of records (known, unknown, over-long), and every sequence of typed reads and writes against the record layer",
 "Tests use well-formed records only, one value type at a time.",
 ["src/vpx/biff.rs","src/vpx/gameitem/*.rs","src/vpx/gamedata.rs"],
 [("record length accounting, skip of unread remainder","src/vpx/biff.rs")],
 [("position and remaining bytes of the current record","where the reader stands","src/vpx/biff.rs")],
 ["vpx::biff::BiffReader","vpx::biff::BiffWriter"])
p("P05","The stored signature always matches the stored content",
 "After any sequence of library operations that writes to a table file, the integrity check of that file succeeds. The signature that is stored is the one defined by the file format over version, info, custom tags, settings, script and collections.",
 ["histories","inputs"],"every history of create, write, script import, lock, unlock, settings update, image conversion and compaction over every table",
 "Tests verify the signature for a fixed table after single operations.",
 ["src/vpx/mod.rs"],[("signature computation and rewriting after each write","src/vpx/mod.rs")],
 [("stored signature","digest at last write","src/vpx/mod.rs")],["vpx::verify"])
p("P06","Changing signed content behind the library's back is detected",
 "If any signed content of a table file (version, a signed info field, a custom tag or its value, a setting, the script, a collection) is changed without re-signing, the integrity check reports a mismatch. Changing only unsigned content (items, images, sounds, fonts, save date and save count) does not make it fail, and restoring the signed content makes it succeed again.",
 ["inputs","histories"],"every single content change and every sequence of them, on every table",
 "The tests only check that untouched files verify.",
 ["src/vpx/mod.rs"],[("ordered list of signed streams and records","src/vpx/mod.rs")],
 [("signed content","what the digest covers","src/vpx/mod.rs")],["vpx::verify"])
p("P07","File operations change only what they are meant to change",
 "Script import changes only the script, lock and unlock only the lock state, settings update only the settings, image conversion only the converted images (which it reports exactly), and compaction nothing; every other part of the table reads back unchanged. Reading, verifying, querying and script extraction leave the table file byte-for-byte untouched.",
 ["histories"],"every history of file operations on every table",
 "Tests check the intended effect of one operation on one table, not the frame over histories.",
 ["src/vpx/mod.rs"],[("in-place stream rewrite vs whole-file rewrite","src/vpx/mod.rs")],
 [("table file","all streams","src/vpx/mod.rs")],["vpx::importvbs","vpx::extractvbs","VpxFile::lock","VpxFile::images_to_webp","vpx::compact"])
p("P08","Lock and unlock behave like a switch over any history",
 "After any history of lock, unlock, reopen and other file operations a table is locked exactly when the last effective of lock/unlock was a lock; a call reports that it changed something exactly when it did, and a call that changes nothing leaves the file as it was. The stored lock counter moves up by exactly one per effective change and not otherwise (wrapping at its largest value).",
 ["histories"],"every interleaving of lock, unlock, reopen, rewrite and script import from every initial counter value, including absent and the largest",
 "Tests run one fixed lock/unlock script from one initial state.",
 ["src/vpx/mod.rs","src/vpx/gamedata.rs"],[("odd/even lock counter","src/vpx/mod.rs")],
 [("lock counter","odd means locked","src/vpx/gamedata.rs")],["VpxFile::lock","VpxFile::unlock","VpxFile::is_locked"])
p("P09","Compacting a table never loses it, at any crash point or failure",
 "At every moment during compaction, including after a crash or a failed storage operation, the table's path holds a complete table with the original content. When compaction reports success the file has the same content and no temporary file remains; when it fails an error is reported.",
 ["crash_points","fault_sequences"],"a crash or an I/O error at every storage system call of the operation",
 "No test injects a crash or an I/O error.",
 ["src/vpx/mod.rs"],[("copy to temporary file, then replace","src/vpx/mod.rs")],
 [("table path","which file generation is visible","src/vpx/mod.rs")],["vpx::compact"])
p("P10","The script sidecar file mirrors the table script",
 "Extracting a table's script and importing it again leaves the script unchanged, and importing a script makes exactly that script the table's script, for any text and stored encoding. Without an explicit path the script is exchanged with the file next to the table that has the same name and the script extension, an explicit path is used as given, and extraction does not overwrite an existing file unless it is told to.",
 ["histories","inputs"],"every script text, encoding, path shape, and history of extraction, import and external edits",
 "Tests cover one script and one path.",
 ["src/vpx/mod.rs","src/vpx/model.rs"],[("extractvbs / importvbs / path derivation","src/vpx/mod.rs")],
 [("sidecar file","script text on disk","src/vpx/mod.rs")],["vpx::extractvbs","vpx::importvbs","vpx::vbs_path_for"])
p("P11","Extracting and reassembling a table gives the same table",
 "Extracting any table to a directory and reading that directory back yields the same table, with all items, images, sounds, fonts, collections, settings, materials, info and the script, in the same order, in every mesh format and with or without derived meshes. All numbers are taken to be finite. This holds whatever the parts are called, including equal names, names differing only in case, empty names and names with characters not allowed in file names.",
 ["inputs","configurations"],"every table and part naming, every mesh format, derived meshes on or off, in memory or on disk",
 "Tests extract a few synthetic tables with mostly distinct plain names.",
 ["src/vpx/expanded/*.rs","src/filesystem.rs"],
 [("unique file naming per kind of part","src/vpx/expanded/gameitems.rs"),("index files","src/vpx/expanded/*.rs")],
 [("files of the directory","content by path","src/vpx/expanded/mod.rs")],["vpx::expanded::write","vpx::expanded::read"])
p("P12","Extraction gives every part its own file inside the target directory",
 "While extracting, no file is written twice and every file path lies inside the target directory, whatever the parts are called. On a file system that ignores letter case the files of different parts are still different files.",
 ["inputs"],"every combination of part names and kinds, including colliding, hostile and very long ones",
 "Tests check a few collisions of two items.",
 ["src/vpx/expanded/*.rs"],[("file name generation and deduplication","src/vpx/expanded/gameitems.rs"),("sanitising of names","src/vpx/expanded/util.rs")],
 [("set of used names","names already taken","src/vpx/expanded/gameitems.rs")],["FileSystem calls"])
p("P13","Storage failures during extraction or reassembly are always reported",
 "If any storage operation fails while a table is extracted or a directory is read, the operation reports an error; it never reports success with missing or truncated parts and never aborts the process. Without failures it succeeds.",
 ["fault_sequences"],"every single failing storage operation (and pairs) of every extraction and reassembly, sequential or parallel",
 "No test injects storage failures.",
 ["src/vpx/expanded/*.rs","src/filesystem.rs"],[("error propagation from every file operation, including worker threads","src/vpx/expanded/gameitems.rs")],
 [("outcome","success or error","src/vpx/expanded/mod.rs")],["FileSystem calls","result"])
p("P14","Extraction and reassembly do not depend on thread scheduling",
 "Extracting the same table always produces the same set of files with the same content, and reading a directory always produces the same table in the same order, however many workers run and however their storage operations interleave.",
 ["schedules"],"every worker count and interleaving of storage operations",
 "Tests run with whatever schedule occurs and never compare runs.",
 ["src/vpx/expanded/gameitems.rs","src/vpx/expanded/images.rs","src/filesystem.rs"],[("names assigned before the parallel phase, results collected in order","src/vpx/expanded/gameitems.rs")],
 [("files of the directory","content by path","src/vpx/expanded/mod.rs")],["FileSystem calls"])
p("P15","An incomplete or damaged directory or table is refused, not half-read",
 "Reading an extracted directory in which a required file is missing or unparsable, or a table file in which a required part is missing, reports an error; it never yields a table that silently lacks the part. Files that are optional by design may be absent, with the documented fallback.",
 ["inputs","fault_sequences"],"every file of every extracted directory and every stream of every table file removed, emptied or damaged",
 "Tests read complete directories and files only.",
 ["src/vpx/expanded/*.rs","src/vpx/mod.rs"],[("index files and counters name the required parts","src/vpx/expanded/*.rs")],
 [("required and optional files","which absences are errors","src/vpx/expanded/mod.rs")],["vpx::expanded::read","vpx::from_bytes"])
p("P16","In-memory storage behaves like the real file system",
 "Any history of creating, buffered writing, flushing, closing, reading, existence checks and deletion gives the same results on the in-memory file system as on disk for the operations both offer, with one writer per file at a time and content compared once flushed or closed. Data is never lost or visible under another path, and what was written is what is read.",
 ["histories","schedules"],"every history of file operations over several paths and open writers",
 "Tests write and read single files.",
 ["src/filesystem.rs"],[("shared map of paths to bytes, writer publishing on flush and drop","src/filesystem.rs")],
 [("files","content by path","src/filesystem.rs")],["FileSystem trait"])
p("P17","Editing a table in memory keeps it consistent",
 "After any history of adding items, adding or replacing images, setting the script, writing and re-reading, the part counters equal the number of parts, no two images added this way have names that differ only in the case of the letters A to Z, a replacement keeps position and count, and the table written is the table in memory.",
 ["histories"],"every history of editing operations from every starting table",
 "Tests add one or two parts once.",
 ["src/vpx/mod.rs"],[("counters updated with the parts; case-insensitive image lookup","src/vpx/mod.rs")],
 [("parts and counters","the in-memory table","src/vpx/mod.rs")],["VPX::add_game_item","VPX::add_or_replace_image","VPX::set_script"])
p("P18","Sounds keep their data through storage and through sound files",
 "Every sound of every file version reads back as stored, and a wave sound exported to a wave file is a well-formed wave file with the same audio data and format. Reading a wave file takes format and data from the right chunks whatever other chunks, padding or orders occur.",
 ["inputs"],"every chunk layout, format extension, size parity and file version",
 "Tests use a few literal wave files.",
 ["src/vpx/wav.rs","src/vpx/sound.rs"],[("chunk walk with padding","src/vpx/wav.rs"),("version dependent sound record","src/vpx/sound.rs")],
 [("position in the chunk sequence","next chunk to read","src/vpx/wav.rs")],["vpx::sound::read_sound","vpx::sound::write_sound"])
p("P19","Compressed bitmap data is stored and restored losslessly",
 "Compressing any bitmap data and decompressing it returns the same bytes, the compressed form is a well-formed block sequence, and decompressing reads exactly the bytes belonging to it. A bitmap image keeps its pixels through a table file whatever its content.",
 ["inputs"],"every length and content, including code table growth and reset boundaries",
 "Tests use one sample image and one synthetic buffer.",
 ["src/vpx/lzw.rs","src/vpx/image.rs"],[("block framing around the LZW code stream","src/vpx/lzw.rs"),("end of data detection in the image reader","src/vpx/image.rs")],
 [("position in the block sequence","remaining bytes of the current block","src/vpx/lzw.rs")],["vpx::lzw::to_lzw_blocks","vpx::lzw::from_lzw_blocks"])
p("P20","A primitive's mesh and animation survive every mesh file format",
 "Extracting a table with mesh primitives and reading it back gives bit-identical vertices and indices for the base mesh, and equal positions and normals for every animation frame in the same order, in every mesh format. Small and large meshes use the index width their size requires.",
 ["inputs","configurations"],"every mesh: vertex and index counts around the width boundary, special float values in any component, degenerate faces, any number of animation frames, every mesh format",
 "Tests use a few small meshes with ordinary values.",
 ["src/vpx/expanded/primitives.rs","src/vpx/obj.rs","src/vpx/gltf.rs","src/vpx/gameitem/primitive.rs"],[("byte preservation in obj comments and glb data","src/vpx/obj.rs"),("index width threshold","src/vpx/gameitem/primitive.rs")],
 [("mesh","vertex bytes, faces, frames","src/vpx/gameitem/primitive.rs")],["vpx::expanded::write","vpx::expanded::read"])
p("P21","Exported 3D scenes are well-formed and contain what they should",
 "A scene exported from any table as glTF or GLB is internally consistent: every reference points to an existing element, every buffer range lies inside its buffer, is aligned to the size of its numbers and does not overlap another's data, every vertex index is below the vertex count, every node has at most one parent, and declared sizes, bounds and extensions match the data. Exactly the parts that are exportable under the chosen options appear, once each, on the layer of their item, hidden exactly when the item is; each shows the image its item names with that image's data (or none when the table has no such image), and the colour of its own material.",
 ["inputs","configurations"],"every combination of item kinds, visibility, images, materials and export options",
 "Tests export a few single-item tables.",
 ["src/vpx/export/gltf_export.rs","src/vpx/gltf.rs","src/gltf.rs","src/vpx/export/camera.rs"],[("offset bookkeeping of buffer views and accessors","src/vpx/export/gltf_export.rs")],
 [("scene document","nodes, meshes, accessors, views","src/vpx/export/gltf_export.rs")],["vpx::export::gltf_export::export_gltf"])
p("P22","Exported OBJ models are well-formed and contain what they should",
 "An OBJ model exported from any table is internally consistent: every face refers to existing vertices, texture coordinates and normals, every object's faces use only that object's vertices, every object is drawn with one material, every material used is defined exactly once (at least once when duplicate definitions are asked for), and every image referenced exists as a file with that image's data. Exactly the parts that are exportable under the chosen options appear, in the order of the items, each with the colour of its own material and, when textures are extracted, the image its item names.",
 ["inputs","configurations"],"every combination of item kinds, visibility, images, materials and export options",
 "Tests export a few single-item tables.",
 ["src/vpx/export/obj_export.rs"],[("running vertex offset","src/vpx/export/obj_export.rs")],
 [("offsets","vertices emitted so far","src/vpx/export/obj_export.rs")],["vpx::export::obj_export::export_obj"])
p("P23","Part group order validation accepts exactly the valid orders",
 "For every list of items, the part group validation reports exactly the items that belong to a group which is not defined earlier in the list, one report per such item and in list order, naming the item and the group; for a list in a valid order it reports nothing.",
 ["inputs"],"every order and nesting of groups and members",
 "Tests cover three examples.",
 ["src/vpx/gameitem.rs"],[("single pass over the items with the groups seen so far","src/vpx/gameitem.rs")],
 [("groups seen so far","names defined","src/vpx/gameitem.rs")],["vpx::gameitem validation"])
p("P24","A failed write of a table file is always reported",
 "If any storage operation fails while a table file is created, written or updated in place (for example because the disk is full), the operation reports an error. When it reports success, reopening the file gives exactly the intended table.",
 ["fault_sequences"],"every single failing write, seek, read or flush of every table-writing operation",
 "No test injects I/O errors; the tests write to healthy storage.",
 ["src/vpx/mod.rs","src/vpx/tableinfo.rs","src/vpx/version.rs"],[("every stream write is followed through to storage and its error returned","src/vpx/mod.rs")],
 [("outcome","success or error, and the bytes on storage","src/vpx/mod.rs")],["vpx::write","vpx::importvbs","VpxFile::open_rw over any storage"])
p("P25","Mesh files made by other tools give exactly the mesh they describe",
 "Reading an extracted table whose mesh file was replaced by one from another tool gives exactly the triangles of that file: polygons become fans, positions, texture coordinates and normals with numbers of their own are combined per corner, every distinct corner is stored once, z is negated, V flipped and the winding reversed as vpinball does, and animation frames are numbered like the base mesh. Other statements, comments, spacing and the order of statements do not matter. An OBJ file naming a corner that does not exist is refused. A glTF or GLB file gives what its primitive refers to: the POSITION, NORMAL and TEXCOORD_0 accessors and the indices, in whatever order the accessors are listed, wherever in the buffer they lie, interleaved with a stride or not, with indices of one, two or four bytes or none at all (the corners in order); normals or texture coordinates that are left out are zero, and the name of the buffer's file may be percent-encoded. What a mesh cannot hold (another primitive mode, sparse or non-float positions, a second buffer, data beyond the end) is refused, not misread.",
 ["inputs"],"every list of OBJ statements: any polygons, index combinations, missing or out of range indices, unrelated statements in between, any number of frames; every layout of the arrays of a glTF file",
 "Tests read a few small files.",
 ["src/vpx/obj.rs","src/vpx/gltf.rs","src/vpx/expanded/primitives.rs"],[("triangulation and merging of corners","src/vpx/obj.rs"),("conversion to the left-handed system","src/vpx/obj.rs")],
 [("mesh","corners and triangles","src/vpx/obj.rs")],["vpx::expanded::read"])
p("P26","Exported models put every item where the table has it",
 "An exported glTF or OBJ model shows every part of the table at its place: a primitive's corners, normals, texture coordinates and triangles are those of its mesh, scaled, turned and moved as the item says, in vpinball's order; walls stand on their outline between their heights; the playfield and the table's lights lie where the table's size puts them. Moving, raising, turning or enlarging an item, or standing it on another wall or ramp, moves exactly that item's parts in exactly that way and nothing else. Both formats agree with each other, and the same model in another unit of length is the same model scaled by that unit.",
 ["inputs","configurations"],"every kind of item, position, rotation, size, surface and unit of length",
 "Tests compare a few built-in meshes and snapshots.",
 ["src/vpx/export/gltf_export.rs","src/vpx/export/obj_export.rs","src/vpx/mesh"],[("node transforms relative to the item, lengths converted once","src/vpx/export/gltf_export.rs"),("vertices in table coordinates","src/vpx/export/obj_export.rs"),("mesh builders per kind","src/vpx/mesh")],
 [("places","corners, normals and translations of every part","src/vpx/export/gltf_export.rs")],["vpx::export::gltf_export::export_gltf","vpx::export::obj_export::export_obj"])
p("P27","Extracted mesh files can be read by other programs",
 "Every mesh file an extraction writes - of a primitive, of each of its animation frames, and of each generated mesh - is a valid file of its format by that format's own rules: GLB chunks, alignment, views and accessors inside their buffer, index width (no index equal to the restart value), declared bounds, only finite numbers in JSON; OBJ indices within the lists before them. Read by those rules it shows the stored mesh: every position, normal, texture coordinate and triangle in order (OBJ: z negated, V flipped, winding reversed). The frames are numbered from the first in stored order and carry the base mesh's texture coordinates and triangles. The folder contains exactly the files for the items there are, and the generated meshes are the same in every format.",
 ["inputs","configurations"],"every mesh (0 to more than 65536 corners, special numbers), any frames, every kind of item with a generated mesh, all three formats",
 "Tests read the files back with vpin itself, which reads only some of what it writes.",
 ["src/vpx/gltf.rs","src/vpx/obj.rs","src/vpx/expanded/primitives.rs","src/vpx/expanded/gameitems.rs"],[("accessors, views and index width","src/vpx/gltf.rs"),("conversion to the right-handed system","src/vpx/obj.rs"),("frame files combine base and frame vertices","src/vpx/expanded/primitives.rs")],
 [("files","mesh files of an extraction","src/vpx/expanded")],["vpx::expanded::write_fs"])
p("P28","Exported scenes and models show the table's materials and lights",
 "In a glTF scene exported from any table, every part looks as its item's material says: its colour, its opacity (only when the material's opacity is active), metalness, roughness, whether it is blended with what is behind it, and how much light from below it lets through (primitives and walls). The material is found whatever the letter case of its name and in whichever format the table keeps its materials; a missing image changes none of this. What has no material is shown in its own way: flashers, light inserts, bulbs and sockets by their own colour, balls by theirs, the playfield by how much it reflects. Every light has the colour, strength and reach its item and the table give it, with a reach of at most 100 m in any unit of length. In an OBJ model every part's entry in the material library has the colour, shine and opacity of its item's material.",
 ["inputs","configurations"],"every combination of material, image, opacity, item kind, own colours, format of the materials, unit of length",
 "Tests compare a few materials and lights.",
 ["src/vpx/export/gltf_export.rs","src/vpx/export/obj_export.rs","src/vpx/obj.rs","src/vpx/material.rs"],[("materials by name, with or without an image, with transmission","src/vpx/export/gltf_export.rs"),("light colours, strength and range","src/vpx/export/gltf_export.rs"),("material library entries","src/vpx/export/obj_export.rs")],
 [("looks","material of each part, each light","src/vpx/export/gltf_export.rs")],["vpx::export::gltf_export::export_gltf","vpx::export::obj_export::export_obj"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P))

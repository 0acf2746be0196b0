"""glTF files as other tools write them: from the layouts of GltfReadMC.tla to files, and the trace GltfRead.tla reads."""
import json, struct, urllib.parse

PER = {"pos": 3, "nor": 3, "tex": 2, "idx": 1}
KEY = {"pos": "POSITION", "nor": "NORMAL", "tex": "TEXCOORD_0"}
CFG = ("INIT Init\nNEXT Next\nCONSTANTS Flaws = {flaws} N = {n} Gaps = {{{gaps}}} Emit = {{{e}}}\nINVARIANTS ReadRight Apart Report\nCHECK_DEADLOCK FALSE\n")
COMP = {1: 5121, 2: 5123, 4: 5125}


def build(r, x, vals, fmt, name, bad=""):
    """the file(s) for a layout x and the numbers vals: {a: rows}; and the document for the specification"""
    iw = x["iw"]
    arrs = {a["a"]: a for a in x["acc"]}
    n = len(vals["pos"])
    width = lambda a: iw if a == "idx" else 4
    top, mem, data, views = 0, [], {}, []
    for k, v in enumerate(x["views"]):
        mine = [a for a in x["acc"] if a["view"] == k + 1]
        per = [a["off"] + width(a["a"]) * PER[a["a"]] for a in mine]
        # room before the view
        top += r.choice([0, 0, 4, 8, 12])
        count = len(vals[mine[0]["a"]])
        stride = v["stride"] or (width(mine[0]["a"]) * PER[mine[0]["a"]])
        end = 0
        for a in mine:
            for i, row in enumerate(vals[a["a"]]):
                for j, q in enumerate(row):
                    o = top + a["off"] + i * stride + j * width(a["a"])
                    mem.append({"o": o, "w": width(a["a"]), "x": q})
                    data[o] = struct.pack("<f", q) if a["a"] != "idx" else struct.pack("<" + {1: "B", 2: "H", 4: "I"}[iw], q)
                    end = max(end, o + len(data[o]))
        del per, count
        views.append({"off": top, "stride": v["stride"], "len": end - top})
        top = (end + 3) // 4 * 4
    top += r.choice([0, 0, 4])
    b = bytearray(r.randrange(256) for _ in range(top))
    for o, q in data.items():
        b[o:o + len(q)] = q
    at = {a["a"]: i for i, a in enumerate(x["acc"])}
    doc = {"mem": mem, "views": [{"off": v["off"], "stride": v["stride"]} for v in views],
           "acc": [{"view": a["view"], "off": a["off"], "w": width(a["a"]), "n": PER[a["a"]], "count": len(vals[a["a"]])} for a in x["acc"]],
           "prim": {k: at[k] + 1 if k in at else 0 for k in PER}}
    some = lambda k, v: {k: v} if v or r.random() < .5 else {}
    J = {"asset": {"version": "2.0", "generator": "another tool"}}
    if r.random() < .7:
        J.update(scene=0, scenes=[{"nodes": [0], "name": "S"}], nodes=[{"mesh": 0, "name": "n"}])
    acc = []
    for a in x["acc"]:
        e = {"bufferView": a["view"] - 1, "componentType": 5126 if a["a"] != "idx" else COMP[iw], "count": len(vals[a["a"]]), "type": {1: "SCALAR", 2: "VEC2", 3: "VEC3"}[PER[a["a"]]], **some("byteOffset", a["off"])}
        if a["a"] == "pos":
            e.update(min=[min(q) for q in zip(*vals["pos"])], max=[max(q) for q in zip(*vals["pos"])])
        acc.append(e)
    prim = {"attributes": {KEY[a]: at[a] for a in PER if a in at and a != "idx"}, **({"indices": at["idx"]} if "idx" in at else {}), **({"mode": 4} if r.random() < .5 else {}),
            **({"material": 0} if r.random() < .3 else {}), **({"extras": {"note": "x"}} if r.random() < .2 else {})}
    if prim.get("material") == 0:
        J["materials"] = [{"name": "M"}]
    if r.random() < .3:     # what the reader has no use for
        prim["attributes"]["COLOR_0"] = at["pos"]
    bufs = [{"byteLength": len(b)}]
    if bad == "lines":
        prim["mode"] = r.choice([0, 1, 3, 5, 6])
    elif bad == "sparse data":
        acc[at["pos"]]["sparse"] = {"count": 1, "indices": {"bufferView": 0, "componentType": 5121}, "values": {"bufferView": 0}}
    elif bad == "positions of another type":
        acc[at["pos"]]["componentType"] = r.choice([5122, 5123, 5120, 5121])
    elif bad == "positions in a plane":
        acc[at["pos"]]["type"] = r.choice(["VEC2", "VEC4", "SCALAR"])
    elif bad == "a second buffer":
        bufs.append({"byteLength": 4, "uri": "data:application/octet-stream;base64,AAAAAA=="})
    elif bad == "data beyond its end":
        acc[r.choice([at["pos"], len(acc) - 1])]["count"] += 100000
    elif bad == "no such accessor":
        prim["attributes"]["POSITION"] = len(acc) + r.choice([0, 5])
    bv = [{"buffer": 0, "byteLength": v["len"], **some("byteOffset", v["off"]), **({"byteStride": v["stride"]} if v["stride"] else {})} for v in views]
    if bad == "a second buffer":
        bv[x["acc"][at["pos"]]["view"] - 1]["buffer"] = 1
    J.update(meshes=[{"primitives": [prim], "name": "mm"}], accessors=acc, bufferViews=bv, buffers=bufs)
    keys = list(J)
    r.shuffle(keys)
    J = {k: J[k] for k in keys}
    text = lambda: json.dumps(J, ensure_ascii=r.random() < .5, indent=r.choice([None, 1, "\t"])).encode()
    if fmt == "glb":
        t = text()
        t += b" " * (-len(t) % 4)
        rest = bytes(b) + b"\0" * (-len(b) % 4)
        return doc, {name + ".glb": b"glTF" + struct.pack("<III", 2, 12 + 8 + len(t) + 8 + len(rest), len(t)) + b"JSON" + t + struct.pack("<I", len(rest)) + b"BIN\0" + rest}
    side = r.choice([name, name, "other", "a b", "Gr\u00fcn", "50%", "x#y", "\u65e5"]) + ".bin"
    bufs[0]["uri"] = urllib.parse.quote(side) if r.random() < .8 or set("%# ") & set(side) else side
    return doc, {name + ".gltf": text(), side: bytes(b)}

"""P25 mesh files made by other tools are read as vpinball reads them (spec: Mesh.tla's reader of OBJ statements; files of the specification and larger ones given to the library, judged by MeshTrace.tla)."""
import json, struct
from lib import vp
from lib import meshlib as M
from lib import gltflib as G

NUM = [lambda v: str(v), lambda v: f"{v}.0", lambda v: f"{v}.000000", lambda v: "%e" % v, lambda v: f"{v}." if v >= 0 else str(v), lambda v: f"{v}e0", lambda v: ("+" if v >= 0 else "") + str(v)]
NOISE = ["", "   ", "# made by a tool", "#", "g part", "s off", "s 1", "s 0", "usemtl wood", "mtllib a.mtl", "l 1 2", "p 1", "# vpx", "# vp 00 11", "usemtl", "g", "# o two", "# f 1 1 1"]


def text(r, lines, noise):
    """the file for the statements"""
    out = []
    num = lambda v: (r.choice(NUM) if noise else NUM[0])(v)
    n = {"v": 0, "vt": 0, "vn": 0}
    for l in lines:
        k, x = l["k"], l["x"]
        if k in ("v", "vt", "vn"):
            y = [num(q) for q in x]
            if noise and k == "v" and r.random() < .2:
                y += [r.choice(["1.0", "0.5 0.5 0.5"])]
            if noise and k == "vt" and r.random() < .2:
                y += ["0.0"]
            if k == "vt" and x[1] == 0 and noise and r.random() < .5:
                y = y[:1]       # V left out is 0
            s = k + " " + " ".join(y)
        elif k == "f":
            s = "f " + " ".join(corner(r, q, noise) for q in x)
        elif k == "#vpx":
            # numbers back to bits
            s = "# vpx " + " ".join("%02x" % b for b in struct.pack("<%df" % len(x), *x))
        elif k == "#":
            s = "# a comment"
        elif k == "o":
            s = r.choice(["o thing", "o", "o a b", "o 1"]) if noise else "o thing"
        else:
            s = r.choice(NOISE)
        if noise and k not in ("#vpx",):
            if r.random() < .1:
                s = r.choice(["  ", "\t"]) + s
            if r.random() < .1:
                s = s.replace(" ", r.choice(["  ", "\t", " \t "]), 1) if not s.lstrip().startswith("#") else s
            if r.random() < .1:
                s += r.choice([" ", "\t"])
        out.append(s)
    eol = r.choice(["\n", "\n", "\r\n"]) if noise else "\n"
    return eol.join(out) + (eol if r.random() < .8 else "")


def corner(r, q, noise):
    v, t, n = q
    if t == 0 and n == 0:
        return f"{v}" if not noise or r.random() < .6 else r.choice([f"{v}/", f"{v}//"])
    if n == 0:
        return f"{v}/{t}" if r.random() < .7 else f"{v}/{t}/"
    return f"{v}/{t or ''}/{n}"


def numbers(lines):
    """the k-th position, texture coordinate and normal get numbers of their own"""
    n = {"v": 0, "vt": 0, "vn": 0}
    out = []
    for l in lines:
        k = l["k"]
        if k in n:
            i = n[k]
            n[k] += 1
            x = {"v": [10 + i, -20 - i, 30 + 2 * i], "vt": [100 + i, -i], "vn": [200 + i, 300 - i, -400 - i]}[k]
            out.append({"k": k, "x": x})
        else:
            out.append(l)
    return out


def dirty(r, lines):
    """the same statements among others"""
    lines = [{"k": "o", "x": []}] + lines
    if r.random() < .3:     # the object may be named anywhere
        r.shuffle_at = r.randrange(len(lines))
        lines.insert(r.shuffle_at, lines.pop(0))
    out = []
    for l in lines:
        while r.random() < .25:
            out.append({"k": r.choice(["other", "other", "#"]), "x": []})
        if l["k"] == "vn" and r.random() < .15:
            out.append({"k": "#vpx", "x": [r.randrange(-900, 900) for _ in range(r.choice([3, 8, 8]))]})
            if r.random() < .2:
                out.append({"k": "#", "x": []})
        out.append(l)
    return out


def polygons(r):
    """a larger mesh"""
    nv, nt, nn = r.choice([1, 3, 4, 8, 24]), r.choice([1, 2, 4, 14]), r.choice([1, 2, 6, 24])
    kind = r.choice(["any", "any", "matched", "nearly", "short", "extra"])
    if kind in ("matched", "nearly", "extra"):
        nt = nn = nv
    if kind == "extra":     # more coordinates than positions
        nt, nn = nv + r.choice([0, 1, 3]), nv + r.choice([0, 2])
    if kind == "short":     # faces name the same numbers, but a list is too short for them
        nt, nn = nv, nv
        if r.random() < .5:
            nt = r.randrange(nv)
        else:
            nn = r.randrange(nv)
    lines = [{"k": k, "x": []} for k, m in (("v", nv), ("vt", nt), ("vn", nn)) for _ in range(m)]
    if r.random() < .3:
        r.shuffle(lines)
    faces = []
    for _ in range(r.choice([0, 1, 2, 6, 30])):
        n = 3 if kind in ("matched", "nearly", "short", "extra") else r.choice([3, 3, 4, 5, 9])
        if kind == "any":
            c = [[r.randrange(1, m + 1) for m in (nv, nt, nn)] for _ in range(n)]
        else:
            hi = nv if kind != "short" or r.random() < .5 else max(1, min(nv, nt, nn))
            c = [[x, x, x] for x in (r.randrange(1, hi + 1) for _ in range(n))]
        faces.append(c)
    if kind == "nearly" and faces:
        f = r.choice(faces)
        q = r.choice(["quad", "off", "gone", "two"])
        if q == "quad":
            f.append(list(f[0]))
        elif q == "off":
            f[0][r.randrange(3)] = r.randrange(1, nv + 1)
        elif q == "gone":
            i = r.randrange(3)
            f[r.randrange(3)][i] = nv + 1 if i == 0 else r.choice([0, nv + 1, nv + 100])
        else:
            f.pop()
    if kind == "matched" and faces and r.random() < .15:
        i = r.randrange(3)
        f = r.choice(faces)
        f[i] = [nv + 1] * 3
    fl = [{"k": "f", "x": f} for f in faces]
    if r.random() < .3:
        for f in fl:
            lines.insert(r.randrange(len(lines) + 1), f)
    else:
        lines += fl
    return lines


def layouts(c, name, flaw=(), n=3, gaps=(0,), emit="", **kw):
    q = lambda xs: ",".join(str(x) for x in xs)
    out = c.tlc("GltfReadMC", G.CFG.format(flaws="{" + ",".join(f'"{f}"' for f in flaw) + "}", n=n, gaps=q(gaps) if not flaw else "4", e='"x"' if emit else ""), name=name, expect_ok=not flaw, **kw)
    if flaw and c.last["code"] != 12:
        raise vp.ToolError(f"the specification does not notice the flaw {flaw}")
    return out


def run(c):
    r = c.rng
    for_ = dict(fam="foreign", faces=1, co=4)
    c.parallel([lambda f=f: M.model(c, "flaw-" + f, fam="foreign", flaw=[f], faces=1, co=3, workers=2) for f in ("unchecked", "winding")])
    spec = M.model(c, "files", fam="foreign", faces=1, co=4, emit=["x"], heap="8g")
    sim = M.model(c, "files2", fam="foreign", faces=3, co=4, n=3, emit=["x", "late"], simulate=(c.n(1500, 20000), 26), workers=1)
    if not c.quick:
        M.model(c, "explore", fam="foreign", faces=2, co=3, n=2, heap="16g", timeout=850)
    seen, uniq = set(), []
    for x in sim:
        k = str(x)
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    r.shuffle(spec)
    r.shuffle(uniq)
    files = [x["file"] for x in spec[:c.n(7000, 60000)] + uniq[:c.n(3000, 20000)]] + [polygons(r) for _ in range(c.n(3000, 30000))]
    V = M.pack([M.f32(1)] * 24).hex()
    F = struct.pack("<3H", 0, 1, 2).hex()
    fr0 = M.pack([M.f32(1)] * 18).hex()
    cases, info = [], {}
    for x in files:
        i = len(cases)
        noise = r.random() < .5
        base = numbers(x)
        if r.random() < .9:
            base = dirty(r, base) if noise else [{"k": "o", "x": []}] + base
        else:       # none or two objects
            base = base if r.random() < .5 else [{"k": "o", "x": []}] + base + [{"k": "o", "x": []}]
        nfr = r.choice([0, 0, 0, 1, 2])
        frames = [[{"k": l["k"], "x": [q + 1000 * (k + 1) for q in l["x"]] if l["k"] in ("v", "vn") else l["x"]} for l in base] for k in range(nfr)]
        put = {"Primitive.m.obj": text(r, base, noise)}
        for k, y in enumerate(frames):
            put[f"Primitive.m_anim_{k}.obj"] = text(r, y, noise)
        cases.append({"id": i, "fmt": "obj", "v": V, "f": F, "frames": [fr0] * nfr, "put": put, "big": False, "name": "m"})
        info[i] = (base, frames)
    # glTF files that another tool wrote again: without what only vpin puts in
    for k in range(c.n(300, 3000)):
        n = r.choice([1, 3, 5, 20])
        f32 = lambda: M.f32(r.choice([r.uniform(-500, 500), r.uniform(0, 1), r.randrange(-9, 9)]))
        nfr = r.choice([0, 0, 1, 3])
        cases.append({"id": len(cases), "fmt": r.choice(["glb", "gltf"]), "v": M.pack([f32() for _ in range(8 * n)]).hex(), "f": struct.pack("<6H", *[r.randrange(n) for _ in range(6)]).hex(),
                      "frames": [M.pack([f32() for _ in range(6 * n)]).hex() for _ in range(nfr)], "strip": True, "big": False, "name": "m"})
    # glTF files laid out by other tools
    c.parallel([lambda f=f: layouts(c, "flaw-" + f, flaw=[f]) for f in ("positional", "no-offset", "no-stride", "wide")])
    layouts(c, "layouts-all", gaps=c.n([0], [0, 4]), timeout=850)
    lay = {}
    for n in (1, 3):
        x = layouts(c, f"layouts{n}", n=n, gaps=[0, 4], emit="x", simulate=(c.n(600, 6000), 9), workers=1)
        u = {json.dumps(q, sort_keys=True): q for q in x}
        lay[n] = [u[k] for k in sorted(u)]
    docs = {}
    BAD = ["lines", "sparse data", "positions of another type", "positions in a plane", "a second buffer", "data beyond its end", "no such accessor"]
    for k in range(c.n(900, 9000)):
        x = r.choice(lay[3])
        n = r.choice([1, 2, 3, 3, 4, 6, 9])
        fmt = r.choice(["glb", "gltf"])
        bad = r.choice(BAD) if r.random() < .15 else ""
        num = lambda: r.choice([r.randrange(-500, 500), r.randrange(-9, 9)])
        vals = {"pos": [[num() for _ in range(3)] for _ in range(n)], "nor": [[num() for _ in range(3)] for _ in range(n)], "tex": [[num() for _ in range(2)] for _ in range(n)],
                "idx": [[r.randrange(n)] for _ in range(3 * r.choice([1, 1, 2, 4]))]}
        doc, put = G.build(r, x, vals, fmt, "Primitive.m", bad)
        nfr = r.choice([0, 0, 0, 1, 2])
        frames = []
        for j in range(nfr):
            y = r.choice(lay[3] if r.random() < .7 else lay[1])
            v2 = dict(vals, pos=[[num() for _ in range(3)] for _ in range(n)], nor=[[num() for _ in range(3)] for _ in range(n)])
            fd, more = G.build(r, y, v2, fmt, f"Primitive.m_anim_{j}")
            if set(more) & set(put):
                nfr = j
                break
            put.update(more)
            frames.append(fd)
        i = len(cases)
        cases.append({"id": i, "fmt": fmt, "v": V, "f": F, "frames": [fr0] * nfr, "put": {a: b.hex() for a, b in put.items()}, "puthex": True, "big": False, "name": "m"})
        docs[i] = (doc, frames, bad)
    res = c.harness("mesh", cases)
    traces, shown = [], {}
    for x in res:
        if "harness" in x:
            raise vp.ToolError(x["harness"])
        if x["write"] != "ok":
            raise vp.ToolError("the mesh that the files replace is not extracted: " + x["write"])
        if x["id"] in docs:
            doc, frames, bad = docs[x["id"]]
            read = x["read"].split(":")[0]
            t = {"id": x["id"], "kind": "gltf", "doc": doc, "frames": frames, "bad": bad, "read": read, "nv": x.get("nv", -1), "nf": x.get("nf", -1), "v": [], "f": [], "fr": [], "usable": "no"}
            if read == "ok":
                t["usable"] = "yes" if x["usable"] == f"{x['nv']} {x['nf'] // 3}" else "no"
                t["v"] = [[M.whole(q) for q in row] for row in M.rows(M.words(x["v"]), 8)]
                t["f"] = M.rows([q + 1 for q in M.ints(x["f"], 2)], 3)
                t["fr"] = [[[M.whole(q) for q in row] for row in M.rows(M.words(h), 6)] for h in x["frames"]]
            traces.append(t)
            shown[x["id"]] = (x, t)
            continue
        if x["id"] not in info:
            t = M.round_trace(cases[x["id"]], x)
            traces.append(t)
            shown[x["id"]] = (x, t)
            continue
        base, frames = info[x["id"]]
        read = x["read"].split(":")[0]
        t = {"id": x["id"], "kind": "foreign", "file": base, "frames": frames, "read": read, "nv": x.get("nv", -1), "nf": x.get("nf", -1), "flen": x.get("flen", -1), "v": [], "f": [], "fr": [],
             "usable": "no"}
        if read == "ok":
            t["usable"] = "yes" if x["usable"] == f"{x['nv']} {x['nf'] // 3}" else "no"
            t["v"] = [[M.whole(q) for q in row] for row in M.rows(M.words(x["v"]), 8)]
            t["f"] = M.rows([q + 1 for q in M.ints(x["f"], 2)], 3)
            t["fr"] = [[[M.whole(q) for q in row] for row in M.rows(M.words(h), 6)] for h in x["frames"]]
        traces.append(t)
        shown[x["id"]] = (x, t)
    bad = M.judge(c, traces)
    ok = sum(t["read"] == "ok" for t in traces)
    for i, why in sorted(bad.items()):
        x, t = shown[i]
        if i in docs:
            c.violation(f"glTF of another tool: {why}", {"fmt": cases[i]["fmt"], "read": x["read"][:200], "doc": {k: t["doc"][k] for k in ("views", "acc", "prim")}, "files": sorted(cases[i]["put"]), "v": t["v"][:4], "f": t["f"][:4], "frames": len(t["frames"]),
                                                        "text": bytes.fromhex(cases[i]["put"]["Primitive.m.gltf"]).decode()[:1500] if cases[i]["fmt"] == "gltf" else ""})
            continue
        if i not in info:
            c.violation(f"{cases[i]['fmt']} without extras: {why}", {"read": x.get("read"), "differ": [(a, b) for a, b in zip(t["v"], t["v2"]) if a != b][:3]})
            continue
        c.violation(why, {"read": x["read"], "usable": x.get("usable"), "nv": t["nv"], "nf": t["nf"], "v": t["v"][:6], "f": t["f"][:6], "file": cases[i]["put"]["Primitive.m.obj"][:1500], "frames": len(t["frames"])})
    c.notes.update(files=len(traces), read=ok, refused=len(traces) - ok)
    c.sample(files[0])
    c.sample(cases[0]["put"])
    c.assumptions += ["a mesh file has one object", "corners are named by positive numbers (vpinball knows no relative ones either)", "coordinates are whole numbers here; how numbers become text is P20"]

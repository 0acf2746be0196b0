"""P27 other programs can read the mesh files of an extracted table (spec: MeshFile.tla; its meshes and others extracted, and the files, read by their formats' own rules, judged by MeshFileTrace.tla)."""
import json
from lib import vp
from lib import scenelib as S

FLAWS = ["narrow-edge", "declared-unpadded", "tex-on-normals", "count-faces", "first-bounds", "z-kept", "v-kept", "normal-kept", "nan-kept", "winding",
         "frame-base", "frame-normals", "frame-first"]
CFG = ("INIT Init\nNEXT Next\nCONSTANTS Flaws = {{{f}}} One = 7 Narrow = {nw} MaxV = {v} MaxF = {fa} MaxFr = {fr} Emit = {{{e}}}\n"
       "INVARIANTS FileRight FormatsAgree Report\nCHECK_DEADLOCK FALSE\n")
FMTS = ["obj", "glb", "gltf"]
NAMES = ["m", "Ramp 1", "a%20b", "50% #2", "Gr\u00fcn", "x.y", "a&b=c", "json", "m_anim", "q?", "t;u", "[k]", "plus+", "a\"b", "A'b", "\u65e5\u672c"]


def model(c, name, flaw=(), v=3, fa=2, fr=2, nw=100, emit=(), **kw):
    q = lambda xs: ",".join(f'"{x}"' for x in xs)
    out = c.tlc("MeshFileMC", CFG.format(f=q(flaw), v=v, fa=fa, fr=fr, nw=nw, e=q(emit)), name=name, expect_ok=not flaw, **kw)
    if flaw and c.last["code"] != 12:
        raise vp.ToolError(f"the specification does not notice the flaw {flaw}")
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True))


def num(x):
    return None if x == 2000000001 else x * 64


def mesh(r, name, nv, nf, nfr, nan=False, wide=False):
    g = lambda: r.choice([r.randrange(-900000, 900000), r.randrange(-3000, 3000), 1024 * r.randrange(-500, 500), 0])
    n = lambda: None if nan and r.random() < .2 else r.randrange(-1024, 1025)
    t = lambda: r.choice([r.randrange(0, 1025), r.randrange(0, 1025), r.randrange(-5000, 5000), 0, 1024])
    row = lambda: [g(), g(), g(), n(), n(), n(), t(), t()]
    if nv > 1000:
        few = [row() for _ in range(97)]
        v = [few[(i * 31 + i // 97) % 97] for i in range(nv)]
        f = [[r.choice([nv, nv - 1, nv // 2, 1, 65536, 65535, r.randrange(1, nv + 1)]) for _ in range(3)] for _ in range(nf)]
        f = [[min(x, nv) for x in y] for y in f]
    else:
        v = [row() for _ in range(nv)]
        f = [[r.randrange(1, nv + 1) for _ in range(3)] for _ in range(nf)]
    fr = [[[g(), g(), g(), r.randrange(-1024, 1025), r.randrange(-1024, 1025), r.randrange(-1024, 1025)] for _ in range(nv)] for _ in range(nfr)]
    return {"name": name, "v": v, "f": f, "frames": fr}


def real(x):
    return 2000000001 if x is None else x


def run(c):
    r = c.rng
    c.parallel([lambda f=f: model(c, "flaw-" + f, flaw=[f], workers=2, nw=2 if f == "narrow-edge" else 100, v=4 if f == "narrow-edge" else 3) for f in FLAWS])
    spec = model(c, "meshes", v=2, fa=2, fr=2, emit=["x"])
    model(c, "explore", v=c.n(3, 4), fa=c.n(2, 3), fr=2)
    model(c, "narrow", v=c.n(4, 5), fa=1, fr=1, nw=3)
    cases = []

    def add(meshes, items=(), derived=False, many=40):
        for m in meshes:
            m["name"] = m["name"]
        cases.append({"id": len(cases), "meshes": list(meshes), "items": list(items), "derived": derived, "many": many})

    for k, m in enumerate(spec if not c.quick else r.sample(spec, min(len(spec), 120))):
        add([{"name": NAMES[k % len(NAMES)], "v": [[num(x) for x in q] for q in m["v"]], "f": m["f"], "frames": [[[num(x) for x in q] for q in fr] for fr in m["fr"]]}])
    for k in range(c.n(150, 2500)):
        ms = []
        for j in range(r.choice([1, 1, 2, 3])):
            n = r.choice(NAMES)
            nv = r.choice([1, 2, 3, 4, 5, 7, 8, 30])
            ms.append(mesh(r, n, nv, r.choice([1, 1, 2, 3, 5, 12]), r.choice([0, 0, 1, 2, 3, 11]), nan=r.random() < .4))
        add(ms, derived=r.random() < .3)
    for n in (65534, 65535, 65536, 65537) + ((70001, 131073) if not c.quick else ()):
        add([mesh(r, "big", n, r.choice([3, 40, 41]), 1 if n == 65536 else 0)])
    # generated meshes
    pool = S.pool(c, 1)
    pick = pool if not c.quick else r.sample(pool, min(len(pool), 420))
    for x in pick + [x for x in pool if "plunger" in str(x)][:80 if c.quick else 0]:
        case, _, _ = S.table(r, x)
        its = [i for i in case["items"] if i["kind"] != "primitive"]
        for i in its:
            if i["kind"] == "plunger" and r.random() < .5:
                i["loops"] = r.choice([[0, 0], [0, 1], [2, 0], [.03, 0], [7.5, 2.25]])
        if its:
            add([], its, derived=True)
    if not c.quick:
        for x in S.pool(c, 3, 500):
            case, _, _ = S.table(r, x)
            add([], [i for i in case["items"] if i["kind"] != "primitive"], derived=r.random() < .9)
    res = c.harness("mfile", cases)
    traces, shown, made = [], {}, set()

    def trace(t, about):
        t["id"] = len(traces)
        traces.append(t)
        shown[t["id"]] = about

    def lean(f):
        """only what is compared"""
        return {"error": f["error"], "mesh": f["mesh"], "doc": f["doc"]}

    for x in res:
        d = cases[x["id"]]
        about = {"meshes": [m["name"] for m in d["meshes"]], "items": d["items"], "case": x["id"]}
        if x["result"] != "ok":
            trace({"kind": "result"}, dict(about, result=x["result"]))
            continue
        wants = {}
        for fmt in FMTS:
            fs = x[fmt]["files"]
            want = wants[fmt] = {}
            at = x[fmt]["index"][len(d["items"]):]
            for m, n in zip(d["meshes"], at):
                for k in range(len(m["frames"]) + 1):
                    want[n + (f"_anim_{k - 1}" if k else "")] = (m, k)
            about["index"] = at
            trace({"kind": "folder", "fmt": fmt, "files": sorted(fs), "bins": x[fmt]["bins"], "other": x[fmt]["other"], "want": sorted(want), "derived": d["derived"],
                   "count": sum(len(m["frames"]) + 1 for m in d["meshes"])}, dict(about, fmt=fmt, files=sorted(fs), bins=x[fmt]["bins"], want=sorted(want)))
            for n, (m, k) in want.items():
                if n not in fs:
                    continue
                g = fs[n]["mesh"]
                rows = m["v"] if k == 0 else [a + b[6:] for a, b in zip(m["frames"][k - 1], m["v"])]
                t = {"kind": "mesh", "fmt": fmt, "file": lean(fs[n]), "name": m["name"], "nv": len(m["v"]), "nf": len(m["f"]),
                     "v": [[real(q) for q in rows[i - 1]] for i in g["iv"] if i <= len(rows)], "f": [m["f"][i - 1] for i in g["if"] if i <= len(m["f"])]}
                trace(t, dict(fmt=fmt, file=n, nv=len(m["v"]), nf=len(m["f"]), case=x["id"], got={a: g[a][:4] for a in ("v", "m", "t", "f")}, want=[t["v"][:4], t["f"][:4]], error=fs[n]["error"]))
        stems = {f: {n for n in x[f]["files"] if n not in wants[f]} for f in FMTS}
        if len({frozenset(q) for q in stems.values()}) != 1:
            trace({"kind": "result"}, dict(about, result="formats have other files", stems={f: sorted(q) for f, q in stems.items()}))
            continue
        for n in sorted(stems["obj"]):
            made.add(n.split(".")[0] + " " + n.rsplit("-", 2)[-2] if "-" in n else n)
            trace({"kind": "made", **{f: lean(x[f]["files"][n]) for f in FMTS}}, dict(about, file=n, counts={f: [x[f]["files"][n]["mesh"][a] for a in ("nv", "nf")] for f in FMTS}))
    bad = S.judge(c, "MeshFileTrace", traces)
    for i, why in sorted(bad.items()):
        t = traces[i]
        kind = shown[i].get("items") and shown[i]["items"][0]["kind"] or ""
        c.violation(f"{t['kind']}: {why}" + (f" ({kind})" if t["kind"] in ("made", "result") and kind else "") + (f" [{t['fmt']}]" if "fmt" in t else ""), shown[i])
    c.notes.update(tables=len(cases), files=sum(1 for t in traces if t["kind"] == "mesh"), generated=sum(1 for t in traces if t["kind"] == "made"))
    if not bad and (c.notes["generated"] < 100 or c.notes["files"] < 300):
        raise vp.ToolError("too few mesh files came about")
    c.sample(spec[0])
    c.sample({"made": sorted(made)[:40]})
    c.assumptions += ["a mesh has vertices and triangles, its indices name vertices, its positions are finite", "numbers are compared in units of 1/1024"]

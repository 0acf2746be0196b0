"""P20 a primitive's mesh and animation survive every mesh file format (spec: Mesh.tla; its meshes and others extracted and read back, judged by MeshTrace.tla)."""
import struct
from lib import vp
from lib import meshlib as M

FLAWS = ["short-text", "flip-32", "nan-normals-only", "comment-stays", "winding", "z-kept", "no-extras", "width-edge"]


def run(c):
    r = c.rng
    c.parallel([lambda f=f: M.model(c, "flaw-" + f, flaw=[f], sp=1, workers=2) for f in FLAWS]
               + [lambda f=f: M.model(c, "flaw-" + f, flaw=[f], sp=0, fr=11, workers=2) for f in ("frames-by-name", "one-digit")])
    spec = M.model(c, "meshes", sp=1, fr=2, emit=["x"])
    M.model(c, "explore", sp=c.n(2, 2), fr=c.n(0, 1), heap="10g", timeout=850)
    cases = []
    fmts = ["obj", "glb", "gltf"]

    def add(fmt, v, f, frames, big=False, kind="mesh"):
        n = len(v) // 8
        w = 4 if n > 65535 else 2
        d = {"id": len(cases), "fmt": fmt, "v": M.pack(v).hex(), "f": struct.pack("<%d%s" % (len(f), "I" if w == 4 else "H"), *f).hex(),
             "frames": [M.pack(x).hex() for x in frames], "big": big, "kind": kind, "name": r.choice(["m", "m", "A b", "\u00c9t\u00e9", "x.y", "a\"b"])}
        cases.append(d)

    for x in spec:
        v = [M.bits(r, k) for q in x["v"] for k in q]
        fr = [[M.bits(r, k) for q in x["fr"] for k in q] for _ in range(x["frames"])]
        for fmt in (["obj"] if x["fmt"] == "obj" else ["glb", "gltf"]):
            add(fmt, v, [0, 1, 0, 1, 0, 0], fr)
    # numbers of every kind in every place
    for k in range(c.n(2500, 40000)):
        n = r.choice([1, 2, 3, 3, 4, 8, 30]) if k % 50 else r.choice([300, 700])
        calm = r.random() < .3
        num = (lambda: M.f32(r.choice([r.uniform(-500, 500), r.uniform(0, 1)]))) if calm else (lambda: M.anything(r))
        nfr = r.choice([0, 0, 1, 2, 3, 5]) if r.random() < .95 else r.choice([10, 11, 12, 23, 101])
        if nfr > 20:
            n = min(n, 3)
        frnum = num if r.random() < .3 else (lambda: M.f32(r.uniform(-500, 500)))
        add(r.choice(fmts), [num() for _ in range(8 * n)], [r.randrange(n) for _ in range(3 * r.choice([0, 1, 2, 5, 12]))],
            [[frnum() for _ in range(6 * n)] for _ in range(nfr)])
    # texture coordinates: the flip of V around its limits
    for k in range(c.n(120, 2500)):
        n = 100
        e = r.randrange(256)
        tv = [r.choice([r.randrange(1 << 32), (r.randrange(64, 140) << 23 | r.randrange(1 << 23)) | r.choice([0, 0x80000000]),
                        M.f32(r.randrange(1 << 12) / r.choice([1 << 12, 1000, 10000, 3000])), (e << 23 | r.randrange(1 << 23))]) for _ in range(n)]
        add("obj", [y for t in tv for y in (0, 0x3f800000, 0x40000000, 0, 0, 0x3f800000, r.choice(tv), t)], [0, 1, 2], [])
    # sizes around the limit of two byte indices
    for n in (65534, 65535, 65536, 65537) + ((131073, 70001) if not c.quick else ()):
        for fmt in fmts:
            if c.quick and n in (65534, 65537) and fmt == "gltf":
                continue
            uniq = [M.f32(r.uniform(-100, 100)) for _ in range(8 * 50)]
            add(fmt, (uniq * (n // 50 + 1))[:8 * n], [n - 1, 0, 1, 0, n - 1, n - 2, n // 2, n - 1, 32768] + [r.randrange(n) for _ in range(300)],
                [[M.f32(1.5)] * (6 * n), [M.f32(-2.25)] * (6 * n)] if n < 65537 and fmt != "gltf" else [], big=True, kind="size %d" % n)
    res = c.harness("mesh", cases)
    traces, shown = [], {}
    for x in res:
        d = cases[x["id"]]
        t = M.round_trace(d, x)
        traces.append(t)
        shown[x["id"]] = (d, x, t)
    bad = M.judge(c, traces)
    for i, why in sorted(bad.items()):
        d, x, t = shown[i]
        detail = {"fmt": d["fmt"], "kind": d["kind"], "name": d["name"], "write": x["write"], "read": x.get("read"), "usable": x.get("usable"), "n": t["n"], "m": t["m"], "nv": t["nv"], "nf": t["nf"], "flen": t["flen"]}
        if why == "vertices" and not d["big"]:
            detail["differ"] = [(a, b) for a, b in zip(t["v"], t["v2"]) if a != b][:3]
        if "frame" in why and not d["big"]:
            detail["frames"] = [len(t["fr"]), len(t["fr2"])]
            detail["differ"] = [(a, b) for p, q in zip(t["fr"], t["fr2"]) for a, b in zip(p, q) if a != b][:3]
        if d["kind"] != "mesh":
            detail["case"] = d["v"][:200]
        else:
            detail["case"] = {k: d[k] if k != "frames" else [f[:200] for f in d[k][:3]] for k in ("v", "f", "frames")} if len(d["v"]) < 3000 else "large"
        c.violation(f"{d['fmt']}: {why}", detail)
    c.notes.update(meshes=len(cases), sizes=[65534, 65535, 65536, 65537])
    c.sample(spec[0])
    c.sample(traces[0])
    c.assumptions += ["stored indices come in threes and name vertices of the mesh", "a frame has as many vertices as the mesh", "a normal of a frame that is no number may become zero (as vpinball exports it)"]

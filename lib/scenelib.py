"""Tables for the checks P21 and P22: items of ScenePool.tla given names, outlines, pictures and colours, and the traces judged."""
import json, math, os
from lib import vp

POOL = "SPECIFICATION Spec\nCONSTANTS N = {n} Emit = {{\"x\"}}\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n"
COLORS = {"wood": (120, 60, 20), "steel": (90, 95, 110), "felt": (10, 110, 40)}


def pool(c, n, num=None):
    kw = dict(simulate=(num, 20), workers=1) if n > 1 else {}
    xs = c.tlc("ScenePool", POOL.format(n=n), name=f"pool{n}", **kw)
    u = {json.dumps(x, sort_keys=True): x for x in xs}
    return [u[k] for k in sorted(u)]


def ring(r, n, cx, cy, rad, z=False, cw=False):
    a0 = r.uniform(0, 6)
    a = [a0 + 2 * math.pi * i / n for i in range(n)]
    if cw:
        a.reverse()
    return [[round(cx + rad * math.cos(x), 1), round(cy + rad * math.sin(x), 1), r.choice([0, 0, 5, 30]) if z else 0, r.random() < .3] for x in a]


def outline(r, it, geo):
    """points for an item; may turn on "flat" (it has no width)"""
    k = it["kind"]
    cx, cy = r.uniform(100, 800), r.uniform(100, 1800)
    if k == "ramp":
        if geo == "none":
            if r.random() < .4:
                return ring(r, r.choice([0, 1]), cx, cy, 50, True)
            if it["sub"] == "Flat":
                it["flat"] = True
                return ring(r, 4, cx, cy, 100, True)[:3]
            return ring(r, r.choice([0, 1]), cx, cy, 50, True)
        if geo == "any":
            p = [round(cx), round(cy), 0, False]
            return r.choice([[p, p], [p, p, [cx + 50, cy, 0, False]], [p, [cx + 50, cy, 0, False], p]])
        return ring(r, r.choice([8, 12]), cx, cy, r.choice([80, 200]), True)[:r.choice([2, 3, 5])]
    n = {"rubber": 3}.get(k, 3)
    if geo == "none":
        if k == "rubber" and r.random() < .3:
            it["flat"] = True
            return ring(r, 4, cx, cy, 40)
        return ring(r, r.choice([0, 1] if k == "rubber" else [0, 1, 2]), cx, cy, 40)
    if geo == "any":
        q = r.choice(["line", "dup", "cross", "same"] + (["two"] if k == "rubber" else []))
        if q == "line":
            return [[cx + 10 * i, cy, 0, False] for i in range(r.choice([3, 4, 7]))]
        if q == "dup":
            p = ring(r, 4, cx, cy, 60)
            p.insert(2, list(p[1]))
            return p
        if q == "cross":
            return [[cx, cy, 0, False], [cx + 50, cy + 50, 0, False], [cx + 50, cy, 0, False], [cx, cy + 50, 0, False]]
        if q == "two":
            return ring(r, 2, cx, cy, 60)
        return [[cx, cy, 0, False]] * 4
    return ring(r, r.choice([3, 4, 5, 8]), cx, cy, r.choice([20, 90, 300]), cw=r.random() < .5)


NAMES = {"wall": ["Wall", "w", "Ramp Wall", "Wänd"], "light": ["l", "Lamp", "Insert"], "flasher": ["Flash", "fl"]}


def names(r, its, dup=False):
    used = set()
    for k, it in enumerate(its):
        if it["pf"]:
            n = r.choice(["playfield_mesh", "Playfield_Mesh"])
        elif it["gi"]:
            n = r.choice(["GI", "gi_", "Gi"]) + str(k)
        else:
            n = r.choice(NAMES.get(it["kind"], [it["kind"].capitalize(), "X", "item " + it["kind"][:3]])) + str(k)
            if dup and r.random() < .5:
                n = "same"
        it["name"] = n


def images(r, other=()):
    """the table's images by name"""
    blob = lambda head: (head + bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 5, 40, 97])))).hex()
    out = {
        "one": {"kind": "jpeg", "path": r.choice(["c:\\x\\One.jpg", "one.jpeg", "one.JPG"]), "data": blob(b"\xff\xd8\xff\xe0")},
        "two": {"kind": "jpeg", "path": r.choice(["two.png", "a/b/two.PNG"]), "data": blob(b"\x89PNG\r\n\x1a\n")},
        "bits": {"kind": "bits", "path": r.choice(["bits.bmp", "bits.png"]), "w": r.choice([1, 2, 5]), "h": r.choice([1, 3, 4]), "k": r.randrange(250)},
        "empty": {"kind": "none", "path": "empty.png"},
    }
    for n, x in other:
        out[n] = x
    real = {}
    for n, x in out.items():
        real[n] = dict(x, name=r.choice([n, n, n.capitalize(), n.upper()]) if n in ("one", "two", "bits", "empty") else n)
    return real


# names that become the same name when written in a material library
MEET = [
    {"wood": "A B", "steel": "AB", "one": "a/b", "two": "a_b"},
    {"wood": "A", "steel": "A__a_b", "one": "a/b", "two": "a_b"},
    {"wood": "A__B", "steel": "A", "one": "C", "two": "B__C"},
    {"wood": "x  y", "steel": "x y", "felt": " xy", "one": "x:y", "two": "x*y", "bits": "x?y"},
    {"wood": "none", "steel": "one", "felt": "bits"},
    {"wood": "M_2", "steel": " M", "felt": "M", "one": "P", "two": "P_2"},
    {"one": "Ä/ß", "two": "Ä_ß", "wood": "Grün 1", "steel": "Grün1"},
    {"one": "a_dedup1", "two": "A"},
]


def like(r, ext=None):
    """images whose names become the same file name, or the replacement name of another one"""
    out, used = [], set()
    ext = ext or r.choice(["png", "PNG", "jpg", "bmp"])
    for _ in range(r.choice([3, 4, 5, 7])):
        n = r.choice("aA") + r.choice(["", "?", "*", ":", "_", "/", "_dedup1", "__dedup1", "_dedup2", "__dedup2", "_dedup3"])
        if n.lower() not in used:
            used.add(n.lower())
            out.append((n, {"kind": "jpeg", "path": "x." + ext, "data": bytes(r.randrange(256) for _ in range(9)).hex()}))
    return out


def table(r, x, dup=False, meet=None, more=()):
    """the case (what the harness builds) and the items as the specification sees them, for one pool entry"""
    its = json.loads(json.dumps(x["its"]))
    opt = x["opt"]
    names(r, its, dup)
    imgs = images(r, more)
    colors = dict(COLORS)
    if meet:
        new = lambda n: meet.get(n, n)
        imgs = {new(n): dict(i, name=new(n) if n in meet else i["name"]) for n, i in imgs.items()}
        colors = {new(n): v for n, v in colors.items()}
        for it in its:
            for a in ("img", "img2", "mat", "mat2"):
                it[a] = new(it[a])
        opt = dict(opt, pfimg=new(opt["pfimg"]), pfmat=new(opt["pfmat"]))
    pic = lambda n: imgs[n]["name"] if n in imgs and imgs[n]["kind"] != "none" else ""
    upper = lambda n: "".join(ch.upper() if ch.isascii() else ch for ch in n)
    vary = lambda n: n if not n else r.choice([n, n, upper(n), upper(n[:1]) + n[1:]])
    mats = [{"name": n, "rgb": list(v), "metal": r.random() < .3, **({"opacity": r.choice([0.5, 0.9995, 1.0])} if r.random() < .4 else {})} for n, v in colors.items()]
    color = {m["name"]: "%02x%02x%02x" % tuple(m["rgb"]) for m in mats}
    lay = r.choice(["", "L"]) if dup else None
    if r.random() < .04:
        opt = dict(opt, pfimg="empty")      # listed, without data
    for it in its:
        it["k"] = r.randrange(60)
        for a, b in (("img", "pic"), ("img2", "pic2")):
            if it[a] == "gone" and r.random() < .3:
                it[a] = "empty"
            it[b] = pic(it[a])
        it["matc"], it["matc2"] = color.get(it["mat"], ""), color.get(it["mat2"], "")
        it["at"] = [round(r.uniform(0, 900)), round(r.uniform(0, 2000)), r.choice([0, 0, 12, -3])]
        if dup:
            it["lay"] = lay
        if it["kind"] in ("wall", "ramp", "rubber", "flasher", "light", "trigger"):
            it["pts"] = outline(r, it, it["geo"])
        if it["kind"] == "primitive":
            if r.random() < .5:
                it["below"] = r.choice([0, 0.3, 1.0, 0.999])
            if it["sub"] == "mesh":
                it["nv"], it["nf"] = r.choice([1, 3, 4, 7, 50]), r.choice([1, 2, 3, 5, 8])
            elif it["sub"] == "empty":
                it["nv"], it["nf"] = r.choice([(0, 0), (3, 0)])
            elif it["sub"] == "builtin":
                it["sides"] = r.choice([3, 4, 5, 16])
            elif it["sub"] == "sides2":
                it["sides"] = r.choice([0, 1, 2])
            it["inside"] = r.random() < .3
            if r.random() < .5:
                it["size"] = [r.choice([1, 100, 0.5]) for _ in range(3)]
                it["rot"] = [r.choice([0, 0, 90, 33]) for _ in range(9)]
        elif r.random() < .3:
            it["below"] = r.choice([0, 0.3])
        if it["kind"] == "plunger" and r.random() < .3:
            it["tip"] = r.choice(["0 .34; 2 .6; 3 .64", "", "1 1", "nonsense", "0 .3; ;5 .2;"])
            if it["tip"] in ("", "1 1", "nonsense"):
                it["geo"] = "none"      # no tip to show
    surf = [it["name"] for it in its if it["kind"] in ("wall", "ramp")] + ["gone", ""]
    shown = []
    for it in its:
        q = {k: it[k] for k in ("kind", "name", "lay", "vis", "vis2", "sub", "geo", "on", "img", "img2", "pic", "pic2", "mat", "mat2", "matc", "matc2", "pf", "gi")}
        shown.append(q)
        it["surface"] = r.choice(surf)
        for a in ("img", "img2"):
            it[a] = vary(it[a])
        del it["pic"], it["pic2"]
    case = {"version": r.choice([1072, 1060]) if opt["old"] else r.choice([1080, 1081]), "table": r.choice(["Table1", "My Table", "T"]), "pfimg": vary(opt["pfimg"]), "pfmat": opt["pfmat"],
            "reflect": r.choice([0, 0.2, 1]), "mats": mats, "oldmats": opt["old"] and r.random() < .5, "images": list(imgs.values()), "items": its, "inv": opt["inv"],
            "units": r.choice(["m", "mm", "cm", "vpu"]), "stem": r.choice(["table", "t", "my table", "100% fun", "a#b", "Größe", "a+b", "x?", "a.b"])}
    return case, shown, pic(opt["pfimg"])


def judge(c, module, traces, name="trace", parts=7):
    fns = []
    for p in range(parts):
        fn = os.path.join(c.dir, f"{name}{p}.ndjson")
        chunk = traces[p::parts]
        if chunk:
            with open(fn, "w") as f:
                for t in chunk:
                    f.write(json.dumps(t) + "\n")
            fns.append((fn, len(chunk), f"{name}{p}"))

    def one(fn, n, nm):
        o = c.tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", name=nm, env_extra={"VP_TRACES": fn}, workers=1, heap="4g")
        if c.last["generated"] < n + 1:
            raise vp.ToolError("trace validation did not judge every trace")
        os.remove(fn)
        return o
    c.traces += len(traces)
    return {x["id"]: x["why"] for o in c.parallel([lambda a=a: one(*a) for a in fns], 7) for x in o}

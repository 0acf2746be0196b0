"""P26 exported models put every item where the table has it (spec: Placement.tla; PlacementMC.tla checks both exporters as machines; exported tables judged by PlacementTrace.tla)."""
from lib import vp
from lib import scenelib as S

FLAWS = [("order", 1), ("late", 1), ("scaledplace", 1), ("unit", 1), ("left", 2), ("winding", 1), ("surface", 1)]
CFG = "SPECIFICATION Spec\nCONSTANTS Flaws = {{{f}}} N = {n}\nINVARIANTS InPlace Sides Agreed Moves\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
SUBS = {"plunger": ["Modern", "Flat", "Custom"], "decal": ["Image", "Text"], "ramp": ["Flat", "OneWire", "TwoWire", "ThreeWireLeft", "ThreeWireRight", "FourWire"],
        "gate": ["WireW", "WireRectangle", "Plate", "LongPlate"], "trigger": ["WireA", "WireB", "WireC", "WireD", "Star", "Button", "Inder"],
        "hittarget": ["DropTargetBeveled", "DropTargetSimple", "DropTargetFlatSimple", "HitTargetRound", "HitTargetRectangle", "HitFatTargetRectangle", "HitFatTargetSquare", "HitTargetSlim", "HitFatTargetSlim"],
        "kicker": ["Hole", "Cup", "HoleSimple", "Williams", "Gottlieb", "Cup2"]}
KINDS = ["primitive", "wall", "rubber", "flasher", "flipper", "bumper", "spinner", "plunger", "decal", "ball", "light", "ramp", "gate", "hittarget", "trigger", "kicker"]
PNG = {"name": "p", "path": "p.png", "kind": "jpeg", "data": "89504e470d0a1a0a00"}
SURFACED = ["bumper", "spinner", "plunger", "gate", "trigger", "kicker", "flipper", "light", "decal"]
UP = {"gate": ["height"], "spinner": ["height"], "rubber": ["height"], "flasher": ["height"], "plunger": ["z_adjust"], "wall": ["height_bottom", "height_top"], "ramp": ["height_bottom", "height_top"],
      "primitive": [], "hittarget": [], "ball": [], "light": ["height"]}
TURN = {"gate": "rotation", "spinner": "rotation", "trigger": "rotation", "hittarget": "rot_z", "kicker": "orientation", "bumper": "orientation", "decal": "rotation", "flasher": "rot_z", "rubber": "rot_z", "flipper": "start_angle"}
WIDE = {"gate": "length", "spinner": "length", "trigger": "radius", "kicker": "radius", "bumper": "radius", "ball": "radius", "light": "mesh_radius", "hittarget": "size"}


def flaw(c, f, n):
    c.tlc("PlacementMC", CFG.format(f='"%s"' % f, n=n), name="flaw-" + f, expect_ok=False, workers=1)
    if c.last["code"] not in (12, 13):
        raise vp.ToolError(f"the specification does not notice the flaw {f}")


def pts(r, k, cx, cy):
    """corners around (cx, cy), whole numbers"""
    if k == "ramp":
        p = [[cx - r.randrange(20, 90), cy + r.randrange(-90, 90)], [cx + r.randrange(-10, 10), cy - r.randrange(60, 120)], [cx + r.randrange(30, 160), cy + r.randrange(-40, 90)]][: r.choice([2, 3])]
        return [[a, b, r.choice([0, 0, 10]), r.random() < .3] for a, b in p]
    w, h = r.randrange(30, 120), r.randrange(30, 120)
    q = [[cx - w, cy - h], [cx + w, cy - h], [cx + w, cy + h], [cx - w, cy + h]]
    if k in ("wall", "light") and r.random() < .5:      # also dents
        q = [[cx - w, cy - h], [cx, cy - h + r.randrange(1, h)], [cx + w, cy - h], [cx + w, cy + h], [cx + r.randrange(-5, 6), cy + h + r.randrange(0, 9)], [cx - w, cy + h]]
    if k == "wall" and r.random() < .5:
        q.reverse()
    if k == "flasher":
        smooth = r.random() < .4    # all or none: the middle stays where it is
        return [[a, b, 0, smooth] for a, b in q]
    return [[a, b, 0, k not in ("wall",) and r.random() < .3] for a, b in q]


def item(r, k, j, sub=None):
    sub = sub or r.choice(SUBS.get(k, [""]))
    cx, cy = r.randrange(100, 850), r.randrange(200, 1700)
    z = r.randrange(0, 90) if k in ("primitive", "hittarget", "ball") else 0
    x = dict(kind=k, name="it%02dx" % j, vis=True, vis2=True, on=[k not in ("decal", "light")] * 4, sub=sub, img="", img2="", mat="", mat2="", lay="", k=1, at=[cx, cy, z], set={})
    s = x["set"]
    if k in ("wall", "rubber", "flasher", "light", "ramp") or k == "trigger":
        x["pts"] = pts(r, k, cx, cy)
    if k == "primitive":
        x.update(sub="builtin", sides=r.choice([3, 4, 5, 8]), size=[r.randrange(20, 90) for _ in range(3)], rot=[r.randrange(-180, 360) for _ in range(3)] + [r.randrange(-30, 30) for _ in range(3)] + [r.randrange(0, 360) for _ in range(3)])
    if k == "wall":
        s["height_bottom"] = r.randrange(0, 30)
        s["height_top"] = s["height_bottom"] + r.randrange(5, 60)
    if k == "rubber":
        s.update(height=r.randrange(10, 60), thickness=r.choice([4, 8]), rot_x=r.choice([0, 0, 20]), rot_y=0, rot_z=r.choice([0, 30]))
    if k == "flasher":
        s.update(height=r.randrange(10, 90), pos_x=cx, pos_y=cy, rot_x=r.choice([0, 15]), rot_y=r.choice([0, 40]), rot_z=r.choice([0, 70]))
    if k == "flipper":
        s.update(base_radius=r.choice([20, 21.5]), end_radius=r.choice([9, 13]), flipper_radius_max=r.randrange(90, 140), start_angle=r.randrange(-120, 121), height=r.choice([40, 50]))
        if r.random() < .5:
            s.update(rubber_height=19, rubber_width=24, rubber_thickness=r.choice([5, 7]))
    if k == "bumper":
        s.update(radius=r.choice([30, 45]), height_scale=r.choice([60, 90]), orientation=r.randrange(0, 360))
    if k in ("gate", "spinner"):
        s.update(height=r.randrange(10, 60), length=r.randrange(50, 120), rotation=r.randrange(0, 360))
    if k == "plunger":
        s.update(z_adjust=r.randrange(0, 40), width=25, height=r.choice([20, 35]), stroke=r.choice([80, 100]))
        x["tip"] = "0 .34; 2 .6; 3 .64; 5 .7; 7 .84; 8 .88"
    if k == "decal":
        s.update(width=r.randrange(20, 100), height=r.randrange(20, 100), rotation=r.randrange(0, 360))
        x.update(img="p", mat="wood")
    if k == "trigger":
        s.update(radius=r.choice([20, 25]), rotation=r.randrange(0, 360), scale_x=r.choice([1, 1.5]), scale_y=1, wire_thickness=r.choice([0, 2]))
    if k == "hittarget":
        s.update(rot_z=r.randrange(0, 360), size=[r.randrange(20, 50) for _ in range(3)])
    if k == "kicker":
        s.update(radius=r.randrange(15, 40), orientation=r.randrange(0, 360))
    if k == "ball":
        s["radius"] = r.choice([25, 30])
    if k == "light":
        x["name"] = r.choice(["GI", "it"]) + "%02dx" % j
        s.update(mesh_radius=r.randrange(10, 40), falloff_radius=50, height=r.choice([1, 5, 30]))
    if k == "ramp":
        s.update(height_bottom=r.randrange(0, 20), height_top=r.randrange(30, 100), width_bottom=r.choice([60, 75]), width_top=60, left_wall_height_visible=r.choice([0, 20]), right_wall_height_visible=r.choice([0, 30]),
                 wire_diameter=r.choice([6, 8]), wire_distance_x=38, wire_distance_y=88)
    return x


def surfaces(r):
    """items others can stand on: a wall, a ramp of one or two straight legs, a second wall of the first one's name; and name -> height at a place"""
    w, v = item(r, "wall", 90), item(r, "wall", 92)
    rp = item(r, "ramp", 91, r.choice(["Flat", "FourWire"]))
    yb = r.choice([0, 600, 900])
    xb = r.choice([100, 900])
    rp["pts"] = [[500, 2000, 0, False], [500, yb, 0, False]] + ([[xb, yb, 0, False]] if yb and r.random() < .7 else [])
    rp["at"] = [500, 1000, 0]
    rp["set"].update(height_bottom=r.choice([0, 10]), height_top=r.choice([40, 90]))
    w["name"], rp["name"], v["name"] = "surfW", "surfR", "SURFw"
    sf = [w, rp, v]
    r.shuffle(sf)
    return sf


def facts(items):
    """what can be stood on, as the specification sees it"""
    return [dict(kind=x["kind"], name=x["name"].lower(), top=x["set"]["height_top"], lo=x["set"]["height_bottom"], pts=[p[:2] for p in x["pts"]]) for x in items if x["kind"] in ("wall", "ramp")]


def onto(r, x, rp):
    """puts the item beside or on a leg of the ramp"""
    p = rp["pts"]
    k = r.randrange(len(p) - 1)
    (ax, ay), (bx, by) = p[k][:2], p[k + 1][:2]
    q = r.choice([1, 1, 2, 3]) / 4
    off = r.randrange(-40, 41)
    at = [round(ax + (bx - ax) * q) + (off if ax == bx else 0), round(ay + (by - ay) * q) + (off if ay == by else 0)]
    d = [at[0] - x["at"][0], at[1] - x["at"][1]]
    x["at"][:2] = at
    for t in x.get("pts", []):
        t[0] += d[0]
        t[1] += d[1]


def copy(x):
    return {k: copy(v) if isinstance(v, dict) else [list(p) if isinstance(p, list) else p for p in v] if isinstance(v, list) else v for k, v in x.items()}


def changes(r, x):
    """(change, a, b, more) and the item before and after"""
    k, s = x["kind"], x["set"]
    out = []
    d = [r.randrange(-60, 61), r.randrange(-60, 61), 0]
    y = copy(x)
    y["at"][0] += d[0]
    y["at"][1] += d[1]
    for p in y.get("pts", []):
        p[0] += d[0]
        p[1] += d[1]
    if k == "flasher":
        y["set"]["pos_x"] += d[0]
        y["set"]["pos_y"] += d[1]
    sf = x.get("surface", "")
    if sf.lower() != "surfr":
        out.append(("shift", 0, 0, [16 * q for q in d], x, y))
    if k in SURFACED:
        a, b = r.sample(["", "surfW", "surfR"], 2)
        y, z = copy(x), copy(x)
        y["surface"], z["surface"] = (r.choice([q, q.upper(), q.lower()]) for q in (a, b))
        out.append(("surface", 0, 0, None, y, z))
    if k in UP:
        q, y = r.randrange(1, 50), copy(x)
        for n in UP[k]:
            y["set"][n] += q
        if not UP[k]:
            y["at"][2] += q
        out.append(("up", 0, 16 * q, None, x, y))
    if k in TURN:
        a, b = r.sample(range(-1, 5), 2)
        y, z = copy(x), copy(x)
        y["set"][TURN[k]], z["set"][TURN[k]] = 90 * a, 90 * b
        if k == "rubber":
            for q in (y, z):
                q["set"]["rot_x"] = 0
                q["pts"] = [p[:3] + [False] for p in q["pts"]]
        if k == "trigger":
            y["set"]["scale_x"] = z["set"]["scale_x"] = 1
        if k == "flasher":
            y["set"].update(rot_x=0, rot_y=0)
            z["set"].update(rot_x=0, rot_y=0)
        out.append(("turn", a, b, None, y, z))
    if k in ("flasher", "rubber"):
        ax = r.choice("xy")
        a, b = r.sample(range(-1, 5), 2)
        y, z = copy(x), copy(x)
        for q, v in ((y, a), (z, b)):
            q["set"].update(rot_x=0, rot_y=0, rot_z=0)
            q["set"]["rot_" + ax] = 90 * v
            if k == "rubber":
                q["pts"] = [p[:3] + [False] for p in q["pts"]]
        out.append(("turn" + ax, a, b, None, y, z))
    m = r.choice([2, 3])
    if k in WIDE:
        y = copy(x)
        n = WIDE[k]
        y["set"][n] = [q * m for q in s[n]] if n == "size" else s[n] * m
        out.append(("wide", 1, m, None, x, y))
    for w, n in (("x", "scale_x"), ("y", "scale_y")):
        if k == "trigger":
            y = copy(x)
            y["set"][n] = s[n] * m
            z = copy(x)
            for q in (y, z):
                q["set"].update(rotation=0, wire_thickness=0)
            out.append((w, 1, m, None, z, y))
    if k == "hittarget":
        i = r.randrange(3)
        y, z = copy(x), copy(x)
        y["set"]["rot_z"] = z["set"]["rot_z"] = 0
        z["set"]["size"][i] *= m
        out.append(("xyz"[i], 1, m, None, y, z))
    if k == "decal":
        w, n = r.choice([("x", "width"), ("y", "height")])
        y, z = copy(x), copy(x)
        y["set"]["rotation"] = z["set"]["rotation"] = 0
        z["set"][n] *= m
        out.append((w, 1, m, None, y, z))
    if k == "bumper":
        y = copy(x)
        y["set"]["height_scale"] *= m
        out.append(("z", 1, m, None, x, y))
    return out


def mesh(r):
    """a primitive of its own mesh: whole numbers, quarter turns"""
    x = item(r, "primitive", 0)
    n = r.choice([3, 4, 7, 20])
    q = [[r.randrange(-40, 41) for _ in range(3)] + r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]) + [r.randrange(-4, 9) / 4, r.randrange(-4, 9) / 4] for _ in range(n)]
    f = [[r.randrange(n) for _ in range(3)] for _ in range(r.choice([1, 2, 9, 20]))]
    few = r.random() < .4       # at most two of the turns
    rot = [r.randrange(0, 4) for _ in range(6)]
    if few:
        keep = r.sample(range(6), 2)
        rot = [v if i in keep else 0 for i, v in enumerate(rot)]
    move = [r.choice([0, r.randrange(-30, 31)]) for _ in range(3)]
    size = [r.choice([1, 2, 3]) for _ in range(3)] if r.random() < .8 else [2, 2, 2]
    deg = [90 * (v - r.choice([0, 0, 4])) for v in rot]
    x.update(sub="mesh", size=size, rot=deg[:3] + move + deg[3:], mesh={"v": q, "f": f})
    it = {"v": [[16 * a for a in p[:3]] for p in q], "n": [[1000 * a for a in p[3:6]] for p in q], "t": [[round(1000 * a) for a in p[6:]] for p in q], "f": [[a + 1 for a in p] for p in f],
          "size": size, "rot": rot[:3] + [16 * a for a in move] + rot[3:], "pos": [16 * a for a in x["at"]]}
    return x, it


def table(items, **kw):
    return dict(dict(version=1081, table="T", pfimg="", pfmat="", mats=[{"name": "wood", "rgb": [1, 2, 3]}], images=[PNG], items=items, units="vpu", tex=True, size=[0, 0, 952, 2162], many=24), **kw)


def dressed(res, case, own):
    """the parts of an export with what they belong to"""
    items = case["items"]
    out = {}
    for fmt in ("gltf", "obj", "lights"):
        ps = []
        for p in res[fmt]:
            i = next((i for i, x in enumerate(items) if p["n"].startswith(x["name"])), -1)
            x = items[i] if i >= 0 else None
            s = p["n"][len(x["name"]):] if x else p["n"]
            pf = i < 0 and (p["n"] == "T" if fmt == "obj" else "playfield" in p["n"].lower())
            wire = bool(x) and x["kind"] == "gate" and s == "Wire" and fmt == "gltf"
            q = {a: p[a] for a in ("nv", "nf", "v", "m", "t", "f", "at")}
            q["on"] = dict(name="", p=[0, 0])
            q.update(o=i >= 0 and i == own, s="pf" if pf else s, i=i, n=p["n"], k=x["kind"] if x else "", pf=pf, wire=wire, c=[0, 0, 0], len=1)
            if wire:
                q["c"] = [16 * x["at"][0], 16 * x["at"][1], 16 * x["set"]["height"]]
                q["on"] = dict(name=x.get("surface", "").lower(), p=x["at"][:2])
                q["len"] = round(x["set"]["length"])
            ps.append(q)
        out[fmt] = ps
    return out


def run(c):
    r = c.rng
    c.parallel([lambda f=f, n=n: flaw(c, f, n) for f, n in FLAWS] + [lambda n=n: c.tlc("PlacementMC", CFG.format(f="", n=n), name="machines%d" % n, workers=1) for n in (1, 2)], 7)
    cases, jobs = [], []

    def add(case):
        case["id"] = len(cases)
        cases.append(case)
        return case["id"]

    allk = [(k, s) for k in KINDS for s in SUBS.get(k, [""])]
    for rnd in range(c.n(2, 12)):
        for k, s in allk:
            sf = surfaces(r)
            ramp = next(q for q in sf if q["kind"] == "ramp")
            x = item(r, k, 1, s)
            if k in SURFACED:
                onto(r, x, ramp)
                if r.random() < .4:
                    x["surface"] = r.choice(["surfW", "SURFW", "surfr"])
            others = [item(r, r.choice(KINDS), 2 + j) for j in range(r.choice([0, 0, 1, 2]))]
            for o in others:
                if o["kind"] in SURFACED and r.random() < .5:
                    onto(r, o, ramp)
                    o["surface"] = "surfR"
            for w, a, b, d, before, after in changes(r, x):
                if w != "surface" and rnd % 2 and r.random() < .5:
                    continue
                lay = sf + others
                at = r.randrange(len(sf), len(lay) + 1)
                u = r.choice(["vpu", "vpu", "mm", "cm", "m"]) if 0 else "vpu"
                two = [add(table(lay[:at] + [y] + lay[at:], units=u)) for y in (before, after)]
                h = 16 * (before["at"][2] if k in ("hittarget", "ball", "primitive") else before["set"]["height"] if k in ("gate", "spinner", "light") or w in ("turnx", "turny") else 0)
                on = [dict(name=q.get("surface", "").lower(), p=q["at"][:2]) for q in (before, after)]
                tol = 16 * x["set"]["thickness"] if k == "rubber" else 16 * x["set"]["wire_diameter"] if k == "ramp" and s != "Flat" else 32 if k == "ramp" and any(p[3] for p in x["pts"]) else 2
                jobs.append((two, at, dict(judge="move", surfaces=facts(lay), on=on, kind=k, sub=before["sub"], w=w, a=a, b=b, d=d or [0, 0, 0], c=[16 * before["at"][0], 16 * before["at"][1]], h=h, tol=tol)))
    for n in range(c.n(24, 200)):
        sf = surfaces(r)
        ramp = next(q for q in sf if q["kind"] == "ramp")
        items = sf + [item(r, k, j) for j, k in enumerate(r.sample(KINDS, 6))]
        for o in items[3:]:
            if o["kind"] in SURFACED and r.random() < .6:
                onto(r, o, ramp)
                o["surface"] = r.choice(["surfR", "surfW"])
        a = add(table(items))
        jobs.append(([a, a], -1, dict(judge="agree", surfaces=facts(items))))
        for u in ("mm", "cm", "m") if n % 3 == 0 else [r.choice(["mm", "cm", "m"])]:
            jobs.append(([a, add(table(items, units=u))], -1, dict(judge="units", unit=u)))
    for n in range(c.n(60, 600)):
        x, it = mesh(r)
        a = add(table([item(r, r.choice(KINDS), 5), x] if r.random() < .5 else [x]))
        jobs.append(([a, a], len(cases[a]["items"]) - 1, dict(judge="mesh", item=it)))
    for n in range(c.n(40, 300)):
        x = item(r, "wall", 0)
        w, h = r.choice([952, 1000, 640]), r.choice([2162, 1200, 2000])
        a = add(table([x], size=[0, 0, w, h], many=64))
        jobs.append(([a, a], 0, dict(judge="wall", item=dict(pts=[[16 * p[0], 16 * p[1]] for p in x["pts"]], top=16 * x["set"]["height_top"], bottom=16 * x["set"]["height_bottom"], size=[16 * w, 16 * h]))))
        size = [r.choice([0, 0, 20, -10]), r.choice([0, 0, 30]), 3 * r.randrange(200, 400), 3 * r.randrange(300, 800)]
        lh = r.choice([100, 1000, 2500])
        a = add(table([x] if n % 2 else [], size=size, lightheight=lh))
        jobs.append(([a, a], -1, dict(judge="table", size=[16 * q for q in size], height=16 * lh)))
    res = {x["id"]: x for x in c.harness("place", cases)}
    traces = []
    for (a, b), own, t in jobs:
        ra, rb = res[a], res[b]
        t = dict(t, id=len(traces), result=ra["result"] if ra["result"] != "ok" else rb["result"])
        t["base"] = dressed(ra, cases[a], own)
        if t["judge"] in ("move", "units"):
            t["then"] = dressed(rb, cases[b], own)
        traces.append(t)
    bad = S.judge(c, "PlacementTrace", traces)
    for i, why in sorted(bad.items()):
        (a, b), own, t = jobs[i]
        x = cases[a]["items"][own] if own >= 0 else {}
        key = f"{t['judge']} {t.get('w', '')} {x.get('kind', '')} {x.get('sub', '')}: {why}".replace("  ", " ")
        y = cases[b]["items"][own] if own >= 0 else None
        tr = traces[i]
        c.violation(key, {"result": tr["result"], "t": {k: v for k, v in t.items()}, "before": x, "after": y, "items": [q["kind"] for q in cases[a]["items"]],
                          "parts": [(f, p["n"], p["v"][:4], q["v"][:4]) for f in ("gltf", "obj") for p, q in zip(tr["base"][f], tr.get("then", tr["base"])[f]) if p["o"]][:4]})
    by = {}
    for _, _, t in jobs:
        k = t["judge"] + (" " + t["w"] if "w" in t else "")
        by[k] = by.get(k, 0) + 1
    c.notes.update(judged=by, exports=len(cases) * 2)
    c.sample({k: v for k, v in jobs[0][2].items()})
    c.assumptions += ["the corners of tubes (rubbers, wire ramps) turn about the tube as vpinball turns them, depending on where it lies: they are judged to within the tube; the edges of curved ramps to within two units (their computation is ill-conditioned)",
                      "turns are judged at quarter turns, for rubbers around the middle of a symmetric outline", "the wire of a gate is not scaled in OBJ files, as in the program this format is known from",
                      "large meshes are compared at up to 24 of their corners and triangles"]

"""P28 the looks of exported scenes (spec: Looks.tla, the exporter giving parts their looks as a machine in LooksMC.tla; tables of all kinds of items exported by the library, what the files say judged by LooksTrace.tla)."""
import math
from lib import vp
from lib import scenelib as S

FLAWS = ["bypicture", "gone", "glass", "raw", "through", "blend"]
CFG = "SPECIFICATION Spec\nCONSTANTS\n Flaws = {f}\n N = {n}\nINVARIANT Own\nCHECK_DEADLOCK FALSE\n"


def flaw(c, f):
    c.tlc("LooksMC", CFG.format(f='{"%s"}' % f, n=2), name="flaw-" + f, expect_ok=False, workers=1)
    if c.last["code"] not in (12, 13):
        raise vp.ToolError(f"the specification does not notice the flaw {f}")


def color(r, white=.3):
    """no shade of white that is not white"""
    return "ffffff" if r.random() < white else "".join("%02x" % r.choice([0, 1, 24, 90, 128, 200, 250, r.randrange(250)]) for _ in range(3))


def dress(r, case, shown):
    """numbers of the looks: the case (for the harness) and what the specification sees"""
    mats = {}
    for m in case["mats"]:
        c = color(r)
        m.pop("opacity", None)
        m.update(rgb=list(bytes.fromhex(c)), metal=r.random() < .3, oa=r.random() < .5, op=r.choice([0, 10, 500, 998, 999, 1000, 1000, 1000, r.randrange(1001)]), shine=r.choice([0, 1000, 500, r.randrange(1001)]), gloss=color(r))
        mats[m["name"]] = dict(c=c, oa=m["oa"], op=m["op"], metal=m["metal"], shine=m["shine"], gloss=m["gloss"])
    clear = []
    for i in case["images"]:
        if i["kind"] == "none":
            continue
        seen = False
        if i["kind"] == "jpeg" and r.random() < .6:
            i.update(kind="png", w=r.choice([1, 2, 5]), h=r.choice([1, 3]), k=r.randrange(250))
        if i["kind"] in ("png", "bits") and r.random() < .6:
            i["clear"] = r.randrange(40)
            seen = True
        if r.random() < .3:
            i["opaque"] = r.random() < .5
            seen = not i["opaque"]
        if seen:
            clear.append(i["name"])
    other = lambda n: r.choice([n, n, n.upper(), n.capitalize()])      # names are the same in any letter case
    case["pfmat"] = other(case["pfmat"])
    for it, q in zip(case["items"], shown):
        it["mat"], it["mat2"] = other(it["mat"]), other(it["mat2"])
        q["rgb"] = it["rgb"] = color(r, .2)
        q["a"] = it["a"] = r.choice([0, 100, 50, r.randrange(101)])
        q["below"] = -1
        it.pop("below", None)
        if it["kind"] in ("primitive", "wall") and r.random() < .6:
            q["below"] = r.choice([0, 300, 999, 1000, 500])
            it["below"] = q["below"] / 1000
        if it["kind"] == "light":
            q["power"] = it["power"] = r.choice([0, 1, 2, 10, 35, 999, 1000, 1001, 5000])
            it["falloff"] = q["reach"] = r.choice([10, 50, 777])
            if it.get("pts"):
                # the furthest corner at a round distance, in any place of the list
                x, y = it["at"][:2]
                at = reach(r, len(it["pts"]), r.choice([1, 7, 40]))
                it["pts"] = [[x + a, y + b, 0, p[3]] for p, (a, b) in zip(it["pts"], at)]
                q["reach"] = round(max(math.hypot(p[0] - x, p[1] - y) for p in it["pts"]))
        else:
            q["power"] = q["reach"] = 0
    lc = bytes.fromhex(color(r, .2))
    lamps = {"lc": list(lc), "lscale": r.choice([0, 100, 1000, 4000]), "gscale": r.choice([0, 100, 220, 1000]), "lrange": r.choice([0, 50, 4000, 185000, 190000, 4000000])}
    case["lamps"] = lamps
    case["reflect"] = r.choice([0, 0.1, 0.2, 0.5, 1])
    return dict(mats=mats, clear=clear, lc=lamps["lc"], lchex=lc.hex(), lscale=lamps["lscale"], gscale=lamps["gscale"], lrange=lamps["lrange"], reflect=round(case["reflect"] * 1000))


def reach(r, n, k):
    """n corners of an outline around the middle, of sides 3, 4, 5"""
    ring = [(3, 4), (-4, 3), (-3, -4), (4, -3)] if n <= 4 else [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-3, -4), (0, -5), (4, -3)]
    if n > len(ring):
        ring = [ring[i % len(ring)] for i in range(n)]
    m = [r.choice([1, 2]) * k for _ in range(n)]
    m[r.randrange(n)] = 6 * k
    return [(a * q, b * q) for (a, b), q in zip(ring, m)]


def run(c):
    r = c.rng
    c.parallel([lambda f=f: flaw(c, f) for f in FLAWS], 6)
    c.tlc("LooksMC", CFG.format(f="{}", n=c.n(2, 3)), name="machine", heap="8g")
    entries = S.pool(c, 1) + S.pool(c, 8, c.n(900, 6000))
    # parts that share a picture, a material or both
    for _ in range(c.n(400, 3000)):
        its = []
        for _ in range(r.choice([2, 3, 6, 12])):
            its.append(dict(r.choice([KIND["primitive"], KIND["wall"], KIND["ramp"], KIND["decal"], KIND["plunger"], KIND["flipper"]]),
                            img=r.choice(["", "one", "one", "two", "gone"]), img2=r.choice(["", "one", "two"]), mat=r.choice(["", "wood", "steel", "felt", "missing"]), mat2=r.choice(["", "wood", "steel"])))
        entries.append({"its": its, "opt": {"inv": False, "old": r.random() < .5, "pfimg": r.choice(["", "one", "two"]), "pfmat": r.choice(["", "wood", "felt"])}})
    cases, info = [], {}
    for x in entries:
        case, shown, pf = S.table(r, x)
        pfmat = case["pfmat"]
        more = dress(r, case, shown)
        case["id"] = len(cases)
        case["format"] = r.choice(["glb", "gltf"])
        info[case["id"]] = dict(more, its=shown, inv=x["opt"]["inv"], old=x["opt"]["old"], pfmat=pfmat, pfpic=pf)
        cases.append(case)
    res = c.harness("export", cases, args=["looks"])
    traces = [dict(t, **info[t["id"]]) for t in res]
    # models of some of these tables
    models = []
    for x in r.sample(cases, min(len(cases), c.n(900, 6000))):
        y = dict(x, id=len(cases) + len(models), dedup=r.random() < .6, tex=r.random() < .6, plunger=True)
        y["images"] = [{k: v for k, v in i.items() if k not in ("clear", "opaque")} for i in x["images"]]
        info[y["id"]] = dict({k: v for k, v in info[x["id"]].items()}, table=y["table"], dedup=y["dedup"], tex=y["tex"], plunger=True)
        models.append(y)
    cases += models
    traces += [dict({k: v for k, v in t.items() if k != "file"}, **info[t["id"]], looks=[], lamps=[]) for t in c.harness("export", models, args=["obj"])]
    bad = S.judge(c, "LooksTrace", traces)
    by = {t["id"]: t for t in traces}
    for i, why in sorted(bad.items()):
        t, cs = by[i], cases[i]
        pre = "model: " if why.startswith("model: ") else ""
        what, _, part = why[len(pre):].partition(": ")
        kind = next((it["kind"] for it in cs["items"] if part and part.startswith(it["name"])), "playfield" if part == "playfield_mesh" else "")
        its = [it for it in t["its"] if part.startswith(it["name"])]
        c.violation(pre + what + (" of a " + kind if kind else ""), {"why": why, "result": t["result"], "format": cs["format"], "units": cs["units"], "old": t["old"], "oldmats": cs["oldmats"], "materials": t["mats"], "clear": t["clear"],
                    "looks": [x for x in t["looks"] if x["n"] == part], "lamps": t["lamps"] if not part else [], "table lamps": cs["lamps"], "defs": t.get("defs", [])[:8], "items": its or t["its"][:4], "pfmat": t["pfmat"], "pfpic": t["pfpic"]})
    c.notes.update(files=len(traces), models=len(models), parts=sum(len(t["looks"]) for t in traces), lamps=sum(len(t["lamps"]) for t in traces))
    c.sample(cases[-1])
    c.assumptions += ["colours of materials are white or visibly not white (a channel below 251)", "parts of one name are not told apart", "the roughness of the playfield without a picture, and of tinted parts, is not decided",
                      "kickers, brackets of spinners and rings of bumpers are drawn as vpinball's built-in pictures are and not decided"]


BASE = dict(vis=True, vis2=True, sub="", geo="ok", on=[False] * 4, img="", img2="", mat="", mat2="", matc="", matc2="", pf=False, gi=False, lay="")
KIND = {"primitive": dict(BASE, kind="primitive", sub="mesh"), "wall": dict(BASE, kind="wall"), "ramp": dict(BASE, kind="ramp", sub="Flat"), "decal": dict(BASE, kind="decal", sub="Image"),
        "plunger": dict(BASE, kind="plunger", sub="Modern"), "flipper": dict(BASE, kind="flipper")}

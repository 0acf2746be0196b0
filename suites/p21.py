"""P21 exported glTF scenes (spec: Scene.tla, the exporter as a machine over SceneDoc.tla's documents; every kind of item and tables of them exported by the library, the files judged by SceneTrace.tla)."""
from lib import vp
from lib import scenelib as S

FLAWS = ["nodata", "texnumber", "matnumber", "pfmaterial", "width", "viewbase", "unpadded", "twoparents", "lightlist", "onelayer", "again", "declared", "builder", "leak"]
CFG = ("SPECIFICATION Spec\nCONSTANTS\n Flaws = {f}\n Pool <- MCPool\n N = {n}\n PfImages = {{\"none\", \"ok\", \"nodata\"}}\n Narrow = 8\n Emit = {{}}\n"
       "INVARIANTS Sound Complete Hidden\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n")


def flaw(c, f):
    c.tlc("SceneMC", CFG.format(f='{"%s"}' % f, n=2), name="flaw-" + f, expect_ok=False, workers=1)
    if c.last["code"] not in (12, 13):
        raise vp.ToolError(f"the specification does not notice the flaw {f}")


def run(c):
    r = c.rng
    c.parallel([lambda f=f: flaw(c, f) for f in FLAWS], 7)
    c.tlc("SceneMC", CFG.format(f="{}", n=c.n(2, 3)), name="machine", heap="8g")
    entries = [(x, False) for x in S.pool(c, 1)]
    many = S.pool(c, 8, c.n(500, 4000))
    entries += [(x, r.random() < .05) for x in many]
    cases, info = [], {}
    for x, dup in entries:
        for _ in range(c.n(1, 3)):
            case, shown, pf = S.table(r, x, dup)
            case["id"] = len(cases)
            case["format"] = r.choice(["glb", "gltf"])
            info[case["id"]] = (shown, pf, x["opt"]["inv"], x["opt"]["old"])
            cases.append(case)
    # more vertices than two bytes count, and just as many
    for nv in [65533, 65534, 65535, 65536, 65537, 70000][: c.n(6, 6)]:
        for nf in (1, 2, 7):
            x = {"its": [dict(kind="primitive", vis=True, vis2=True, sub="mesh", geo="ok", on=[False] * 4, img="", img2="", mat="wood", mat2="", matc="", matc2="", pf=False, gi=False, lay="", pic="", pic2="")],
                 "opt": {"inv": False, "old": False, "pfimg": "", "pfmat": ""}}
            case, shown, pf = S.table(r, x)
            case["items"][0].update(nv=nv, nf=nf)
            case["id"] = len(cases)
            case["format"] = "glb"
            info[case["id"]] = (shown, pf, False, False)
            cases.append(case)
    res = c.harness("export", cases, args=["gltf"])
    traces = []
    for t in res:
        shown, pf, inv, old = info[t["id"]]
        t = dict(t, its=shown, inv=inv, old=old, pfpic=pf, result="ok" if t["result"] == "ok" else t["result"])
        traces.append(t)
    bad = S.judge(c, "SceneTrace", traces)
    by = {t["id"]: t for t in traces}
    for i, why in sorted(bad.items()):
        t, cs = by[i], cases[i]
        kinds = sorted({it["kind"] + ("" if it["vis"] else " invisible") for it in cs["items"]})
        parts = [(n["n"], n["v"], n["l"], m) for n in t.get("doc", {}).get("nodes", []) if n["mesh"] != -1 for m in [t["doc"]["meshes"][n["mesh"]]]] if t.get("doc") else []
        key = why + (": " + " ".join(kinds) if len(cs["items"]) == 1 and why.split()[-1] in ("parts", "lights") else "")
        c.violation(key, {"result": t["result"], "format": cs["format"], "inv": cs["inv"], "old": info[i][3], "pfimg": cs["pfimg"], "pfmat": cs["pfmat"], "pfpic": info[i][1], "stem": cs["stem"],
                          "items": [{k: v for k, v in it.items() if k != "pts"} for it in cs["items"]][:8], "pixels": t.get("pixels"), "parts": parts[:20]})
    c.notes.update(files=len(traces), tables=len(cases), of_many_items=len(many))
    c.sample({k: v for k, v in cases[-30].items()})
    c.assumptions += ["positions are finite and stored faces name stored vertices", "images of a table differ in their names (ignoring case) and hold at least one byte",
                      "items of one name lie on one layer", "where the outline of an item is degenerate, a part may be there or not"]


"""P22 exported OBJ models (spec: ObjScene.tla, the exporter as a machine over ObjDoc.tla's documents; every kind of item and tables of them exported by the library with every set of options, the models judged by ObjTrace.tla)."""
from lib import vp
from lib import scenelib as S

FLAWS = ["rawkey", "texkey", "imgname", "facebase", "texcoords", "offset", "bymaterial", "nodedup"]
CFG = "SPECIFICATION Spec\nCONSTANTS\n Flaws = {f}\n Pool <- MCPool\n N = {n}\nINVARIANTS Sound Complete Running\nPROPERTIES Grows\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION Spec\nCONSTANTS\n Flaws = {}\n Pool <- MCPool\n N = 1\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n"


def prim(**kw):
    return dict(dict(kind="primitive", vis=True, vis2=True, sub="mesh", geo="ok", on=[False] * 4, img="", img2="", mat="wood", mat2="", matc="", matc2="", pf=False, gi=False, lay=""), **kw)


def flaw(c, f):
    c.tlc("ObjSceneMC", CFG.format(f='{"%s"}' % f, n=2), name="flaw-" + f, expect_ok=False, workers=1)
    if c.last["code"] not in (12, 13):
        raise vp.ToolError(f"the specification does not notice the flaw {f}")


def run(c):
    r = c.rng
    c.parallel([lambda f=f: flaw(c, f) for f in FLAWS], 7)
    c.tlc("ObjSceneMC", CFG.format(f="{}", n=c.n(2, 3)), name="machine", heap="8g")
    c.tlc("ObjSceneMC", LIVE, name="ends", workers=1)
    entries = [(x, False, None) for x in S.pool(c, 1)]
    many = S.pool(c, 8, c.n(500, 4000))
    entries += [(x, r.random() < .05, r.choice(S.MEET) if r.random() < .5 else None) for x in many]
    cases, info = [], {}
    for x, dup, meet in entries:
        for _ in range(c.n(1, 3)):
            case, shown, pf = S.table(r, x, dup, meet)
            case["id"] = len(cases)
            case["dedup"], case["tex"], case["plunger"] = (r.random() < .7, r.random() < .7, r.random() < .7)
            kd = {}
            for it in case["items"] + [{"mat": case["pfmat"], "mat2": "", "img": "none", "img2": ""}]:
                for a in ("mat", "mat2", "img", "img2"):
                    for m in case["mats"]:
                        if m["name"].lower() == it[a].lower():
                            kd[it[a]] = "%02x%02x%02x" % tuple(m["rgb"])
            for it, q in zip(case["items"], shown):
                q.update(img=it["img"], img2=it["img2"])
            info[case["id"]] = dict(its=shown, old=x["opt"]["old"], pfpic=pf, pfmat=case["pfmat"], kd=kd, table=case["table"], dedup=case["dedup"], tex=case["tex"], plunger=case["plunger"])
            cases.append(case)
    # big meshes after each other
    for sizes in [(65535, 3), (70000, 70001), (1, 65536, 2)]:
        its = [prim() for _ in sizes]
        case, shown, pf = S.table(r, {"its": its, "opt": {"inv": False, "old": False, "pfimg": "", "pfmat": ""}})
        for it, nv in zip(case["items"], sizes):
            it.update(nv=nv, nf=3)
        case.update(id=len(cases), dedup=True, tex=False, plunger=True)
        info[case["id"]] = dict(its=shown, old=False, pfpic="", pfmat="", kd={"wood": "783c14"}, table=case["table"], dedup=True, tex=False, plunger=True)
        cases.append(case)
    # images whose file names meet
    for _ in range(c.n(120, 1500)):
        more = S.like(r)
        its = [prim(img=n) for n, _ in r.sample(more, len(more))]
        case, shown, pf = S.table(r, {"its": its, "opt": {"inv": False, "old": False, "pfimg": "", "pfmat": ""}}, more=more)
        case.update(id=len(cases), dedup=r.random() < .7, tex=True, plunger=True)
        for it, q in zip(case["items"], shown):
            q.update(img=it["img"], img2=it["img2"])
        info[case["id"]] = dict(its=shown, old=False, pfpic="", pfmat="", kd={"wood": "783c14"}, table=case["table"], dedup=case["dedup"], tex=True, plunger=True)
        cases.append(case)
    res = c.harness("export", cases, args=["obj"])
    traces = [dict(t, **info[t["id"]]) for t in res]
    bad = S.judge(c, "ObjTrace", traces)
    by = {t["id"]: t for t in traces}
    for i, why in sorted(bad.items()):
        t, cs = by[i], cases[i]
        kinds = sorted({it["kind"] + ("" if it["vis"] else " invisible") for it in cs["items"]})
        key = why + (": " + " ".join(kinds) if len(cs["items"]) == 1 and why.split()[-1] == "parts" else "")
        c.violation(key, {"result": t["result"], "dedup": t["dedup"], "tex": t["tex"], "plunger": t["plunger"], "old": t["old"], "pfimg": cs["pfimg"], "pfmat": cs["pfmat"], "pfpic": t["pfpic"], "stem": cs["stem"], "kd": t["kd"],
                          "images": [(x["name"], x["kind"]) for x in cs["images"]],
                          "items": [{k: v for k, v in it.items() if k != "pts"} for it in cs["items"]][:8], "objects": t.get("objects", [])[:20], "defs": t.get("defs", [])[:20]})
    c.notes.update(files=len(traces), of_many_items=len(many), objects=sum(len(t.get("objects", [])) for t in traces), definitions=sum(len(t.get("defs", [])) for t in traces))
    c.sample({k: v for k, v in cases[-30].items()})
    c.assumptions += ["coordinates are finite and stored faces name stored vertices", "names hold no line breaks", "images of a table differ in their names (ignoring case) and hold at least one byte",
                      "where the outline of an item is degenerate, a part may be there or not"]

"""P23 part group order validation (spec: PartGroup.tla; its lists and random ones given to the real validation, judged by PartGroupTrace.tla)."""
import json, os, shutil
from lib import vp
from lib import expandlib as X
from lib.recgen import wst, st
from lib.tabgen import rec

CFG = ("INIT Init\nNEXT Next\nCONSTANTS Kinds = {k} Names = {names} MaxLen = {n} Flaws = {f} Emit = {e}\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n")
GROUPS = ["Group", "group", "GROUP ", "Gr\u00fcppe", "\u00ff", "G1", "G10", "Layer_1", " ", "Table1.x", "''", "part_group", "'Gate'", "x" * 40]


def run(c):
    S = lambda xs: "{" + ",".join(f'"{x}"' for x in xs) + "}"

    def mc(name, n, f=(), emit=False, kinds=("light",), names=("g", "h"), **kw):
        return c.tlc("PartGroup", CFG.format(k=S(kinds), names=S(names), n=n, f=S(f), e="TRUE" if emit else "FALSE"), name=name, expect_ok=not f, **kw)

    def flaw(f):
        mc("flaw-" + f, 3, f=[f])
        if c.last["code"] != 12:
            raise vp.ToolError(f"the specification does not notice the flaw {f}")
    mc("explore", c.n(5, 6), heap="10g")
    c.parallel([lambda f=f: flaw(f) for f in ("all-first", "any-name", "report-once")])
    lists = mc("lists", 3, emit=True, kinds=("light", "wall"))
    lists.sort(key=lambda x: json.dumps(x, sort_keys=True))
    r = c.rng
    tg = X.gen(c)
    S_ = tg.S
    names = lambda k: any(x.get("t") == "GRUP" for x in S_[k]["f"])
    kinds = [k for k in tg.kinds if k != "PartGroup"]
    plain = [x["list"] for x in lists]
    for i in range(c.n(300, 5000)):
        k = r.choice([2, 4, 8, 20, 60])
        gs = "ghij"[:r.choice([1, 2, 3, 4])]
        plain.append([["group", r.choice(gs), ""] if r.random() < .3 else ["light", r.choice(gs), r.choice(list(gs) + [""])] for _ in range(k)])
    if c.quick:
        r.shuffle(plain)
        plain = plain[:1800]
    cases = []
    used = {}
    for l in plain:
        g = dict(zip("ghij", r.sample(GROUPS, 4)))
        out, items = [], []
        for n, (k, a, b) in enumerate(l):
            if k == "group":
                it = tg.item("PartGroup", name=g[a], opt=0)
                out.append(["group", g[a], ""])
            else:
                # an ordinary item may bear a group's name; it is told apart by its kind and the order
                kind = r.choice(kinds)
                used[kind] = used.get(kind, 0) + 1
                nm = g[a] if r.random() < .3 else "it%03dem" % n
                it = tg.item(kind, name=nm, opt=0)
                it["recs"] = [x for x in it["recs"] if x["t"] != "GRUP"]
                grp = g[b] if b else None
                if grp is not None:
                    at = next(i for i, x in enumerate(it["recs"]) if x["t"] == "NAME" and "s" not in x) + 1
                    it["recs"].insert(at, rec("GRUP", st(grp.encode("latin-1"))))
                out.append([kind, nm, grp or ""])
            items.append(it)
        t = tg.table(items=items, images=[], sounds=[], fonts=[], colls=[], opt=0, info={}, tags={}, code=b"")
        cases.append({"id": len(cases), "list": out, "streams": t["streams"]})
    res = c.harness("edit", cases, args=[c.dir])
    fn = os.path.join(c.dir, "traces.ndjson")
    by = {}
    with open(fn, "w") as f:
        for x, y in zip(sorted(res, key=lambda x: x["id"]), cases):
            if "harness" in x or x["id"] != y["id"]:
                raise vp.ToolError(f"case {x['id']}: {x.get('harness')}")
            if "panic" in x:
                c.violation("the validation aborts", {"panic": x["panic"], "list": y["list"]})
                continue
            by[x["id"]] = (y["list"], x["got"])
            nm = {a[1] for a in y["list"]}
            gr = {a[2] for a in y["list"] if a[2]} | {a[1] for a in y["list"] if a[0] == "group"}
            f.write(json.dumps({"id": x["id"], "list": y["list"], "got": [[[n for n in nm if n in m], [n for n in gr if n in m]] for m in x["got"]]}) + "\n")
    bad = c.tlc("PartGroupTrace", "INIT TInit\nNEXT TNext\nCONSTANTS Kinds = {} Names = {} MaxLen = 0 Flaws = {} Emit = FALSE\nCHECK_DEADLOCK FALSE\n", name="trace", env_extra={"VP_TRACES": fn}, workers=1, heap="6g")
    if c.last["generated"] < len(by) + 1:
        raise vp.ToolError("trace validation did not replay every trace")
    os.remove(fn)
    c.traces += len(by)
    for v in bad:
        for why in v["why"]:
            c.violation(why, {"list": by[v["id"]][0][:30], "reports": by[v["id"]][1][:10]})
    c.notes["lists"] = len(by)
    c.notes["lists_in_valid_order"] = sum(not g for _, g in by.values())
    c.notes["reports"] = sum(len(g) for _, g in by.values())
    c.notes["kinds"] = used
    c.sample(by[0] if 0 in by else {})
    c.assumptions += ["the empty text is no group", "groups are not nested (a group belongs to no group)"]

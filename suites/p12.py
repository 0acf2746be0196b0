"""P12 every part has its own file inside the target directory (spec: Expand.tla OwnFile, Inside; judged by ExpandTrace.tla)."""
from lib import expandlib as X


def run(c):
    items = X.model(c, "items", c.n(2, 3), emit="list")
    files = X.model(c, "files", c.n(2, 3), emit="list") + X.model(c, "files-few", 3, emit="list")
    if not c.quick:
        items = items if len(items) < 6000 else c.rng.sample(items, 6000)
        files = files if len(files) < 9000 else c.rng.sample(files, 9000)
    else:
        c.rng.shuffle(files)
        files = files[:900]
    X.flaws(c, *[(fam, 2 if fam == "items" else 3, 1, 0, 0, *fl) for fam, fl in
                 (("items", ["anim-unguarded"]), ("items", ["case-sensitive"]), ("items", ["no-dedup"]), ("files-few", ["fonts-no-dedup"]),
                  ("files-few", ["dedup-unchecked"]), ("files-few", ["dedup-unchecked", "dedup-raw"]))])
    tg = X.gen(c)
    r = c.rng
    cases = []

    def add(t, about):
        cases.append({"id": len(cases), "streams": t["streams"], "mode": "names", "fmt": ["obj", "glb", "gltf"][len(cases) % 3], "derived": len(cases) % 2 == 0, "about": about})
    for x in items + files:
        add(X.of_list(tg, x["ps"], 1072), str(x["ps"]))
    for i in range(c.n(1200, 15000)):
        add(X.of_random(tg, names=0.95, small=True), "random difficult names")
    # all items one name, in all spellings
    for nm in X.NASTY:
        its = [tg.primitive(n[:100], nv=3, nf=1, frames=2, opt=0) for n in (nm, nm.upper(), nm.lower(), nm + "_anim_0", nm, nm + "__1", nm)]
        its += [tg.item(k, name=nm, opt=0) for k in ("Wall", "Bumper", "Rubber", "Ramp", "Flipper")]
        add(tg.table(version=1072, items=its, images=[], sounds=[], fonts=[], colls=[], opt=0), f"one name: {nm!r}")
        l1 = nm.encode("latin-1", "ignore").decode("latin-1")
        L = [l1, l1.upper(), l1.lower(), l1 + "_dedup1", l1, l1 + "_dedup2", l1 + "."]
        L = [x.encode("latin-1", "ignore").decode("latin-1")[:100] for x in L]
        add(tg.table(version=1072, items=[], images=[tg.image(x, kind="raw", path="a.jpg") for x in L], sounds=[tg.sound(1072, x, path="a.ogg") for x in L],
                     fonts=[tg.font(x, path="a.ttf") for x in L], colls=[], opt=0), f"one name: {nm!r}")
    res = X.judge(c, cases, "names")
    # how far the naming rules of the specification are the ones of the code (information, not a verdict)
    c.notes["files_written"] = sum(len(r["log"]) for r in res)
    c.sample({"lists": (items + files)[:4]})
    c.sample({"files": ["/".join(e[1]) for e in res[-1]["log"]][:20]})
    c.assumptions += ["names of at most 100 characters", "letter case is folded as Unicode lower case", "the target directory is new"]

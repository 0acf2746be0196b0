"""P15 an incomplete or damaged directory or table is refused (spec: Expand.tla Refused, NothingElse; every file of every directory lost or damaged, judged by ExpandTrace.tla)."""
from lib import expandlib as X


def run(c):
    hurt = X.model(c, "whole", w=2, d=1, emit="hurt")
    X.flaws(c, ("whole", 0, 1, 0, 1, "missing-skipped"), extra=[lambda: X.model(c, "whole", w=1, d=2), lambda: X.model(c, "whole", w=2, d=1, f=1)])
    tg = X.gen(c)
    r = c.rng
    cases = []
    for i in range(c.n(150, 2000)):
        v = r.choice([1000, 1031, 1072, 1080, 1081])
        items = [tg.primitive("P%d" % j, mesh=j < 2, frames=j * 3) if j < 3 else tg.item() for j in range(r.choice([1, 4, 6]))]
        images = [tg.image(name="i%d" % j, kind=k, path="x." + {"png": "png", "bmp": "bmp", "raw": r.choice(["jpg", "png", "webp"]), "link": "png"}[k]) for j, k in enumerate(["png", "bmp", "raw", "link"])]
        sounds = [tg.sound(v, name="s%d" % j) for j in range(3)]
        t = tg.table(version=v, items=items, images=images, sounds=sounds, fonts=[tg.font(name="f")], colls=[tg.collection()], screenshot=i % 2 == 0, tags={"T": "x"})
        cases.append({"id": i, "streams": t["streams"], "mode": "damage", "fmt": ["obj", "glb", "gltf"][i % 3], "derived": False, "about": "random"})
    # the part lists of the specification
    for x in {str(h["ps"]): h["ps"] for h in hurt}.values():
        for f in ("obj", "glb", "gltf"):
            cases.append({"id": len(cases), "streams": X.of_list(tg, x, 1072)["streams"], "mode": "damage", "fmt": f, "derived": False, "about": str(x)})
    res = X.judge(c, cases, "damage")
    tot = {}
    for x in res:
        for y in x.get("runs", []):
            p = y["path"]
            k = f"{p[0] + '/*.' + p[-1].rsplit('.', 1)[-1] if len(p) > 1 else p[0]} {y['how']} -> {y['res']}"
            tot[k] = tot.get(k, 0) + 1
    c.notes["outcomes"] = tot
    c.sample(hurt[:3])
    c.assumptions += ["missing mesh files and animation frames beyond a gap are optional by design (the item is read without them)",
                      "damage that leaves a well-formed file of its kind (a text cut between lines, raw picture data) cannot be recognised"]

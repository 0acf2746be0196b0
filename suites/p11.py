"""P11 extraction and reassembly give the same table (spec: Expand.tla RoundTrip; judged by ExpandTrace.tla)."""
from lib import expandlib as X

FMT = ["obj", "glb", "gltf"]


def run(c):
    items = X.model(c, "items", 2, emit="list")
    few = X.model(c, "files-few", c.n(2, 3), emit="list")
    whole = X.model(c, "whole", w=2, emit="list")
    if c.quick:
        c.rng.shuffle(few)
        few = few[:250]
        items += X.model(c, "items-few", 3, emit="list")
    else:
        items += c.rng.sample(X.model(c, "items", 3, emit="list"), 3000)
    X.flaws(c, ("items", 2, 1, 0, 0, "anim-unguarded"), ("items", 2, 1, 0, 0, "strip-repeatedly"), ("items-few", 2, 2, 0, 0, "completion-order"),
            ("whole", 0, 2, 0, 0, "no-dedup"), ("files-few", 3, 1, 0, 0, "dedup-unchecked"))
    tg = X.gen(c)
    r = c.rng
    cases, k = [], 0

    def add(t, about, **kw):
        cases.append(dict({"id": len(cases), "streams": t["streams"], "mode": "round", "fmt": FMT[len(cases) % 3], "derived": r.random() < 0.3,
                           "real": len(cases) % 5 == 0, "slow": r.random() < 0.3, "about": about}, **kw))
    for x in items + few + whole:
        add(X.of_list(tg, x["ps"], r.choice([1000, 1060, 1072, 1081])), str(x["ps"]))
    # every kind of item with everything present, in every format, with derived meshes
    for kind in tg.kinds:
        for j in range(c.n(3, 12)):
            it = tg.primitive(opt=[0, 1, .5][j % 3]) if kind == "Primitive" else tg.item(kind, opt=[0, 1, .5][j % 3])
            add(tg.table(version=r.choice([1000, 1072, 1081]), items=[it, tg.item("Wall")], images=[], sounds=[], fonts=[], colls=[]), kind, derived=j % 2 == 0)
    for i in range(c.n(900, 12000)):
        names = r.choice([None, None, 0.5, 0.9])
        add(X.of_random(tg, names=names), f"random, names {names}")
    # many parts with the same name, many frames
    for f in FMT:
        n = r.choice([12, 25, 110])
        add(tg.table(version=1072, items=[tg.item("Wall", r.choice(["A", "a"]), opt=0) for _ in range(n)] + [tg.primitive("Long", opt=0, nv=3, nf=1, frames=r.choice([11, 101, 130])), tg.primitive("Long", opt=0, nv=3, nf=2, frames=12)],
                     images=[tg.image("A", kind="png") for _ in range(13)], sounds=[tg.sound(1072, "A") for _ in range(12)], fonts=[tg.font("A") for _ in range(11)]), "many of one name", fmt=f, derived=False)
    # more vertices than a 16 bit index can name
    for i, nv in enumerate([65535, 65536] if c.quick else [65534, 65535, 65536, 65537, 70000, 131072]):
        for f in FMT[:c.n(1, 3)] if i else FMT:
            m = tg.mesh(nv=nv, nf=5, frames=1)
            it = tg.primitive("Big", mesh=False)
            at = next((q for q, x in enumerate(it["recs"]) if x["t"] == "PIDB"), len(it["recs"]))
            it["recs"][at:at] = m[0]
            add(tg.table(version=1072, items=[it], images=[], sounds=[], fonts=[], colls=[]), f"{nv} vertices", fmt=f, derived=False, real=False)
    X.judge(c, cases, "round")
    c.sample({"lists": items[:3] + few[:2], "random": 900})
    c.assumptions += ["all numbers finite; sizes that meshes are generated from lie in the range of real tables", "names of at most 100 characters",
                      "part counters in the settings agree with the parts; uncompressed images have the extension bmp", "the target directory is new",
                      "animation frames only with a mesh"]

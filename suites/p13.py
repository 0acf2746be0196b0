"""P13 storage failures during extraction or reassembly are reported (spec: Expand.tla Honest; a failure at every storage operation, judged by ExpandTrace.tla)."""
from lib import expandlib as X

LEVEL = "fault_enumeration"


def run(c):
    X.flaws(c, ("whole", 0, 1, 1, 0, "swallow"), extra=[lambda: X.model(c, "whole", w=2, f=c.n(1, 2), d=1), lambda: X.model(c, "items-few", 2, w=2, f=1)])
    tg = X.gen(c)
    r = c.rng
    cases = []
    for i in range(c.n(40, 500)):
        v = r.choice([1000, 1060, 1072, 1081])
        kw = dict(nv=3, nf=1)
        items = [tg.primitive("P", frames=2, **kw), tg.item(opt=0), tg.primitive("P", frames=0, **kw)][:r.choice([1, 2, 3])]
        t = tg.table(version=v, items=items + [tg.item() for _ in range(r.randrange(3))], images=[tg.image(kind=k) for k in r.sample(["png", "bmp", "raw", "link"], 2)],
                     sounds=[tg.sound(v)], fonts=[tg.font()], colls=[tg.collection(items=["a"])], screenshot=i % 2 == 0)
        cases.append({"id": i, "streams": t["streams"], "mode": "fault", "fmt": ["obj", "glb", "gltf"][i % 3], "derived": i % 2 == 0, "max": 1000000 if i < 3 else c.n(150, 2000),
                      "pick": r.randrange(1 << 16)})
    res = X.judge(c, cases, "fault")
    ops = {}
    for x in res:
        for y in x.get("runs", []):
            k = f"{y['dir']} {y['op']} {y['fault']} -> {y['res']}"
            ops[k] = ops.get(k, 0) + 1
    c.notes["outcomes"] = ops
    c.sample({"operations of one table (writing, reading)": res[0].get("ops")})
    c.sample(res[0].get("runs", [{}])[0])
    c.assumptions += ["a failing operation has no effect, or half of it (short transfers); existence tests do not fail"]

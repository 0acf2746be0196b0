"""P14 extraction and reassembly do not depend on scheduling (spec: Expand.tla SameFiles, RoundTrip under every interleaving; forced orders, judged by ExpandTrace.tla)."""
from lib import expandlib as X


def run(c):
    n = c.n(4, 5)
    writes = X.model(c, "sched", 3, w=3, emit="write")
    reads = X.model(c, "sched", n, w=n, emit="read")
    X.flaws(c, ("items-few", 2, 2, 0, 0, "completion-order"), ("items-few", 2, 2, 0, 0, "no-dedup"),
            extra=[lambda: X.model(c, "items-few", c.n(2, 3), w=3), lambda: X.model(c, "whole", w=3)])
    # the orders in which the specification's workers finish, per number of items
    orders = {}
    for x in reads:
        orders.setdefault(len(x["ps"]), {"ps": x["ps"], "o": []})["o"].append(x["ord"])
    for x in writes:
        own = x["own"]
        first = []
        for f in x["ord"]:
            i = next(k for k, fs in enumerate(own) if f in fs) + 1
            if f == own[i - 1][0]:
                first.append(i)
        o = orders.setdefault(len(x["ps"]), {"ps": x["ps"], "o": []})["o"]
        if first not in o:
            o.append(first)
    tg = X.gen(c)
    r = c.rng
    cases = []

    def add(t, orders, threads, about):
        cases.append({"id": len(cases), "streams": t["streams"], "mode": "sched", "fmt": ["obj", "glb", "gltf"][len(cases) % 3], "derived": len(cases) % 2 == 0,
                      "orders": orders, "threads": threads, "about": about})
    for k, v in sorted(orders.items()):
        if k == 0:
            continue
        for th in (1, 2, 3, 8):
            os_ = v["o"] if th == 8 else r.sample(v["o"], min(len(v["o"]), 4))
            add(X.of_list(tg, v["ps"], 1072, small=True), os_, th, f"{k} items, {th} threads")
    # equal and colliding names: the stems must not depend on who comes first
    for x in X.model(c, "items", 2, emit="list") if not c.quick else X.model(c, "items-few", 2, emit="list"):
        if len(x["ps"]) == 2:
            add(X.of_list(tg, x["ps"], 1072), [[1, 2], [2, 1]], 4, str(x["ps"]))
    # larger tables, random orders
    for i in range(c.n(30, 400)):
        k = r.choice([5, 8, 12])
        its = [tg.primitive(r.choice(["A", "a", "A__1", None]), nv=3, nf=1) if r.random() < .6 else tg.item(name=r.choice(["A", "a", "B"])) for _ in range(k)]
        os_ = []
        for _ in range(4):
            p = list(range(1, k + 1))
            r.shuffle(p)
            os_.append(p)
        add(tg.table(version=1072, items=its), os_ + [list(range(k, 0, -1))], r.choice([2, 8, 8, 16]), "random")
    res = X.judge(c, cases, "sched")
    c.notes["orders_run"] = sum(len(x.get("runs", [])) for x in res)
    c.notes["orders_reached"] = sum(1 for x in res for y in x.get("runs", []) if y["unforced"] == 0)
    c.sample({"orders": orders[3]["o"]})
    c.assumptions += ["orders are forced at the storage operations of the item files; a worker held back for 60 ms because its predecessor has no thread goes on (counted as not reached)"]

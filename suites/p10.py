"""P10 the script sidecar file mirrors the table script (spec: Container.tla)."""
from lib.tabgen import TableGen
from lib.hist import cfg, make_case, run_histories

OPS = ["import", "import_bad", "extract", "edit", "lock"]


def mine(op, why):
    if op in ("import", "extract"):
        return why in ("failed", "path", "files", "part script", "part codeb", "touched") or why.startswith("import of")
    return op == "paths" and why == "path"


def run(c):
    c.tlc("ContainerMC", cfg(OPS, c.n(5, 6), False), name="ContainerMC", coverage=True)
    progs = c.tlc("ContainerMC", cfg(["import", "import_bad", "extract", "edit"], 3, True, inv=False), name="gen", workers=1)
    progs = [p for p in progs if any(o[0] in ("import", "extract", "import_bad") for o in p["ops"])]
    c.rng.shuffle(progs)
    progs = progs[:c.n(1000, 9000)]
    long = c.tlc("ContainerMC", cfg(OPS + ["compact", "rewrite", "setgd", "read"], 14, True, inv=False), name="long",
                 simulate=(c.n(150, 3000), 16), workers=1)
    rt = [{"lock": [], "ops": [["extract", "default", False], ["import", "default"], ["extract", "other", True], ["read"], ["import", "other"]]}]
    tg = TableGen(c.rng)
    cases = [make_case(0, p, tg, rich=False) for p in rt * c.n(60, 600) + progs + long]
    for i, k in enumerate(cases):
        k["id"] = i
    tr = run_histories(c, cases, mine)
    for t in tr[:4]:
        c.sample({"file": t["file"], "ops": [s["op"] + ":" + s["arg"] + "=" + str(s["res"])[:9] for s in t["steps"]]})
    c.assumptions += ["script files are UTF-8 text (anything else is refused)"]

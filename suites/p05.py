"""P05 the stored signature always matches the stored content (spec: Container.tla)."""
from lib.tabgen import TableGen
from lib.hist import cfg, make_case, run_histories

OPS = ["lock", "unlock", "compact", "setgd", "import", "extract", "edit", "webp", "rewrite", "reopen"]


def mine(op, why):
    return why == "signature"


def run(c):
    c.tlc("ContainerMC", cfg(OPS, c.n(5, 7), False), name="ContainerMC", coverage=True)
    progs = c.tlc("ContainerMC", cfg(["lock", "unlock", "compact", "setgd", "import", "edit", "webp", "rewrite"], 3, True, inv=False), name="gen", workers=1)
    c.rng.shuffle(progs)
    progs = progs[:c.n(700, 9000)]
    long = c.tlc("ContainerMC", cfg(OPS + ["read", "verify", "is_locked"], 16, True, inv=False), name="long", simulate=(c.n(150, 3000), 18), workers=1)
    # single steps on many different tables, among them the smallest one
    single = [{"lock": k, "ops": [[o]]} for o in ("compact", "webp", "rewrite", "lock", "minimal") for k in ([], [0, 0])]
    single += [{"lock": [], "ops": [["minimal"], ["lock"], ["edit", "default", "s1"], ["import", "default"], ["setgd", "g1"], ["compact"]]}]
    tg = TableGen(c.rng)
    cases = [make_case(0, p, tg) for p in progs + long + single * c.n(8, 60)]
    for i, k in enumerate(cases):
        k["id"] = i
    tr = run_histories(c, cases, mine)
    for t in tr[:4]:
        c.sample({"file": t["file"], "ops": [s["op"] for s in t["steps"]], "verify": [s["verify"] for s in t["steps"]]})
    c.assumptions += ["the signature definition in the harness (MD2 over header, version, info, tags, settings, script, collections) is the format's"]

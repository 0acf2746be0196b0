"""P07 file operations change only what they are meant to change (spec: Container.tla)."""
from lib.tabgen import TableGen
from lib.hist import cfg, make_case, run_histories

OPS = ["lock", "unlock", "is_locked", "read", "verify", "compact", "setgd", "import", "extract", "edit", "webp", "rewrite", "reopen"]


def mine(op, why):
    if why in ("signature", "verdict", "path", "result") or why.startswith("import of"):
        return False
    if op in ("lock", "unlock", "is_locked"):
        return why not in ("part lock", "failed", "touched")
    if op in ("import", "extract", "paths"):
        return why not in ("part script", "part codeb", "failed", "files")
    return True


def run(c):
    c.tlc("ContainerMC", cfg(OPS, c.n(5, 6), False), name="ContainerMC", coverage=True)
    progs = c.tlc("ContainerMC", cfg(["lock", "is_locked", "read", "verify", "compact", "setgd", "import", "extract", "edit", "webp"], 2, True, inv=False),
                  name="gen", workers=1)
    c.rng.shuffle(progs)
    progs = progs[:c.n(400, 4000)]
    long = c.tlc("ContainerMC", cfg(OPS, 14, True, inv=False), name="long", simulate=(c.n(250, 4000), 16), workers=1)
    single = [{"lock": k, "ops": [[o]]} for o in ("compact", "webp", "rewrite", "lock", "read", "verify") for k in ([], [0, 1])]
    single += [{"lock": [], "ops": [["setgd", "g1"], ["edit", "default", "s1"], ["import", "default"], ["webp"], ["compact"], ["read"], ["lock"]]}]
    tg = TableGen(c.rng)
    cases = [make_case(0, p, tg) for p in single * c.n(14, 120) + progs + long]
    for i, k in enumerate(cases):
        k["id"] = i
    tr = run_histories(c, cases, mine)
    for t in tr[:4]:
        c.sample({"file": t["file"], "ops": [s["op"] + ("*" if s["changed"] else "") for s in t["steps"]]})
    c.notes["webp_conversions"] = sum(len(s["res"]) for t in tr for s in t["steps"] if s["op"] == "webp" and isinstance(s["res"], list))
    c.assumptions += ["image conversion is checked on 8 bit RGBA pictures", "frames are compared on tables in the library's stored form; "
                      "for other tables the settings are compared by meaning"]

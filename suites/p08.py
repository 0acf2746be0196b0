"""P08 lock and unlock behave like a switch over any history (spec: Container.tla)."""
from lib.tabgen import TableGen
from lib.hist import cfg, make_case, run_histories, W

OPS = ["lock", "unlock", "is_locked", "reopen", "setgd", "compact"]


def mine(op, why):
    return op in ("lock", "unlock", "is_locked") and why in ("failed", "result", "touched", "part lock", "broken") or why == "part lock"


def run(c):
    c.tlc("ContainerMC", cfg(OPS, c.n(6, 8), False, w=W), name="ContainerMC", coverage=True)
    progs = c.tlc("ContainerMC", cfg(OPS, 4, True, m=4, w=W, inv=False), name="gen", workers=1)
    progs = [p for p in progs if any(o[0] in ("lock", "unlock") for o in p["ops"])]
    c.rng.shuffle(progs)
    progs = progs[:c.n(700, 8000)]
    long = c.tlc("ContainerMC", cfg(["lock", "unlock", "is_locked", "reopen", "setgd", "compact", "import", "edit", "read", "rewrite", "tamper", "webp"],
                                    24, True, m=24, w=W, inv=False), name="long", simulate=(c.n(150, 3000), 26), workers=1)
    tg = TableGen(c.rng)
    cases = []
    for p in progs + long:
        cases.append(make_case(len(cases), p, tg, rich=len(p["ops"]) > 6))
    tr = run_histories(c, cases, mine)
    for t in tr[:5]:
        c.sample({"start": t["first"]["f"]["lock"], "ops": [s["op"] + "=" + str(s["res"])[:8] for s in t["steps"]]})
    c.assumptions += ["one writer at a time (no two open sessions on the same file)"]

"""P06 changing signed content behind the library's back is detected (spec: Container.tla)."""
from lib.tabgen import TableGen
from lib.hist import cfg, make_case, run_histories

OPS = ["tamper", "restore", "lock", "verify", "import", "edit", "rewrite", "setgd"]


def mine(op, why):
    return why == "verdict"


def run(c):
    c.tlc("ContainerMC", cfg(OPS, c.n(4, 5), False), name="ContainerMC", coverage=True)
    progs = c.tlc("ContainerMC", cfg(["tamper", "restore", "lock", "verify"], 3, True, inv=False), name="gen", workers=1)
    c.rng.shuffle(progs)
    progs = [p for p in progs if any(o[0] == "tamper" for o in p["ops"])][:c.n(900, 9000)]
    long = c.tlc("ContainerMC", cfg(OPS + ["compact", "unlock", "extract", "webp", "read"], 12, True, inv=False), name="long",
                 simulate=(c.n(150, 3000), 14), workers=1)
    tg = TableGen(c.rng)
    cases = [make_case(i, p, tg) for i, p in enumerate(progs + long)]
    tr = run_histories(c, cases, mine)
    for t in tr[:4]:
        c.sample({"ops": [s["op"] + ":" + s["arg"] for s in t["steps"]], "verify": [s["verify"] for s in t["steps"]]})
    c.notes["tampered_signed_steps"] = sum(1 for t in tr for s in t["steps"] if s["op"] == "tamper" and not s["verify"])
    c.assumptions += ["a change is one that alters the signed byte sequence as the format defines it (moving bytes from the end of one info field to "
                      "the start of the next is invisible to the format)"]

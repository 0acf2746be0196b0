"""P24 a failed write of a table file is always reported (spec: SafeWrite.tla; faults injected at every storage operation)."""
from lib import vp
from lib.tabgen import TableGen
from suites.p09 import run_faults

LEVEL = "fault_enumeration"
CFG = "SPECIFICATION Spec\nCONSTANTS N = {n} Chunks = {k} Flaws = {f}\nINVARIANTS Reported WholeIfOk\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
OPS = ["write", "write_over", "minimal", "import", "lock", "unlock", "setgd", "webp"]


def run(c):
    c.tlc("SafeWrite", CFG.format(n=c.n(6, 30), k=c.n(3, 8), f="{}"), name="SafeWrite")
    for fl in ("dropflush", "ignore", "noend"):
        c.tlc("SafeWrite", CFG.format(n=3, k=2, f='{"%s"}' % fl), name="flaw-" + fl, expect_ok=False)
        if c.last["code"] != 12:
            raise vp.ToolError(f"the specification does not notice the flaw {fl}")
    tg = TableGen(c.rng)
    r = c.rng
    cases = []
    for i in range(c.n(24, 160)):
        op = OPS[i % len(OPS)]
        v = r.choice([1060, 1072, 1082])
        full = op in ("write", "write_over")
        imgs = [tg.image(kind=k) for k in (["bmp", "png", "raw"] if op == "webp" or full else ["raw"])]
        t = tg.table(version=v, lock=r.choice([1, 3]) if op == "unlock" else r.choice([None, 2]), images=imgs,
                     sounds=[tg.sound(v)] if full else [], fonts=[tg.font()] if full else [], colls=[tg.collection(items=["a"])] if full else [],
                     items=[tg.item() for _ in range(r.randrange(1, 4))], code=b"'" * r.choice([0, 10, 4095, 4096, 70000]), screenshot=r.random() < 0.5)
        cases.append({"id": i, "op": op, "file": r.choice(["T.vpx", "noext", "a.b.vpx"]), "streams": t["streams"], "clsid": t["clsid"], "canon": True,
                      "modes": ["once", "sticky", "short", "crash"], "max": c.n(170, 6000), "off": r.randrange(1 << 20)})
    # every single storage operation fails once, on a small table with one part of each kind
    for op in ["write", "minimal", "import", "lock", "setgd", "webp"]:
        t = tg.table(version=1072, lock=2, images=[tg.image(kind="bmp")], sounds=[tg.sound(1072)], fonts=[tg.font()], colls=[tg.collection()],
                     items=[tg.item(kind="Timer", opt=0)], code=b"'x", info={"TableName": "n", "AuthorName": "a"}, tags={"t": "v"}, screenshot=True, opt=0)
        for j in range(6):
            cases.append({"id": len(cases), "op": op, "file": "T.vpx", "streams": t["streams"], "clsid": False, "canon": True, "modes": ["once"],
                          "step": 6, "off": j})
    res = run_faults(c, cases, "writes", "SafeWriteTrace")
    for x in res[:8]:
        c.sample({"op": x["op"], "operations": x["n"], "calls": x.get("calls"), "faults": len(x["runs"])})
    c.assumptions += ["reading back right after the failed attempt shows what storage holds"]

"""P09 compacting a table never loses it (spec: Compact.tla; faults injected at every storage operation)."""
import json, os, shutil, tempfile
from lib import vp
from lib.tabgen import TableGen

LEVEL = "fault_enumeration"
CFG = "SPECIFICATION Spec\nCONSTANTS Streams = {n} Flaws = {f}\nINVARIANTS NeverLost Honest Durable\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
FILES = ["T.vpx", "x.compacting", "noext", ".hidden", "a.b.vpx", "Tisch \u00e4.vpx", "T.vpx.compacting", "compacting"]


def run_faults(c, cases, name, module, heap="6g"):
    work = tempfile.mkdtemp(prefix="vpxf-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else c.dir)
    try:
        res = c.harness("faults", cases, name=name, args=[work], timeout=850)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for r in res:
        if "harness" in r:
            raise vp.ToolError(f"case {r['id']}: {r['harness']}")
        for k, d in (("evs", []), ("runs", []), ("left", []), ("same", True), ("n", 0)):
            r.setdefault(k, d)
    fn = os.path.join(c.dir, name + ".traces.ndjson")
    with open(fn, "w") as f:
        for r in res:
            f.write(json.dumps({k: r[k] for k in ("id", "op", "clean", "evs", "runs", "left", "same")}) + "\n")
    bad = c.tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", name="trace-" + name, env_extra={"VP_TRACES": fn}, workers=1, heap=heap)
    if c.last["generated"] < len(res) + 1:
        raise vp.ToolError("trace validation did not replay every trace")
    os.remove(fn)
    by = {x["id"]: x for x in cases}
    rb = {r["id"]: r for r in res}
    for r in res:
        c.evals += 1 + len(r["runs"])
        c.traces += 1
        for x in r["runs"]:
            k = f"{x['m']}@{x['c']}:{x['res']}/{x['tbl']}"
            c.notes.setdefault("outcomes", {}).setdefault(r["op"], {})
            c.notes["outcomes"][r["op"]][k] = c.notes["outcomes"][r["op"]].get(k, 0) + 1
    for v in bad:
        r = rb[v["id"]]
        x = r["runs"][v["at"] - 1] if v["at"] else {"clean": r["clean"], "evs": r["evs"][:20], "left": r["left"]}
        for why in v["why"]:
            key = f"{r['op']}:{why}" + (f":{x['m']}@{x['c']}" if v["at"] else "")
            c.violation(key, {"op": r["op"], "file": by[v["id"]]["file"], "fault": x, "storage_operations": r["n"], "case": by[v["id"]]["id"],
                              "seed": c.seed})
    return res


def run(c):
    c.tlc("Compact", CFG.format(n=c.n(5, 40), f="{}"), name="Compact")
    for fl in ("unlink", "swallow", "nosync", "samename", "early"):
        c.tlc("Compact", CFG.format(n=3, f='{"%s"}' % fl), name="flaw-" + fl, expect_ok=False)
        if c.last["code"] != 12:
            raise vp.ToolError(f"the specification does not notice the flaw {fl}")
    tg = TableGen(c.rng)
    r = c.rng
    cases = []
    for i in range(c.n(16, 60)):
        big = i % 4 == 0
        t = tg.table(version=r.choice([1060, 1072, 1082]), extra=r.random() < 0.6,
                     images=[tg.image(kind="raw") for _ in range(r.randrange(3))], items=[tg.item() for _ in range(r.randrange(4) + (8 if big else 0))],
                     code=b"'" * r.choice([0, 10, 4095, 4096, 70000]))
        cases.append({"id": i, "op": "compact", "file": FILES[i % len(FILES)], "streams": t["streams"], "clsid": t["clsid"], "canon": False,
                      "modes": ["once", "sticky", "short", "crash"], "max": c.n(150, 4000) if i else 100000, "off": r.randrange(1 << 20)})
    # the first case: every single operation
    cases[0]["streams"] = [s for s in cases[0]["streams"] if not s["path"].startswith(("GameStg/GameItem", "GameStg/Image", "GameStg/Sound", "Other"))]
    if c.quick:
        cases[0]["modes"] = ["sticky", "crash"]
        cases[0]["max"] = 1500
    # long streams and many streams, few of the faults
    for n, (size, many) in enumerate([(3000000, 0), (70000, 400)] if c.quick else [(3000000, 0), (70000, 400), (12000000, 40), (17, 3000)]):
        t = tg.table(version=1072, extra=True)
        x = [{"path": "Other/Long", "hex": r.randbytes(size).hex()}] + [{"path": f"Other/S{k}", "hex": r.randbytes(r.choice([0, 5, 64, 4096, 5000])).hex()} for k in range(many)]
        cases.append({"id": len(cases), "op": "compact", "file": FILES[n], "streams": t["streams"] + x, "clsid": True, "canon": False,
                      "modes": ["once", "sticky", "short", "crash"], "max": c.n(6, 30), "off": r.randrange(1 << 20)})
    res = run_faults(c, cases, "compact", "CompactTrace")
    for x in res[:5]:
        c.sample({"file": cases[x["id"]]["file"], "log": x["evs"], "faults": len(x["runs"]), "operations": x["n"]})
    c.assumptions += ["renaming a file over another is atomic and durable in order", "a failing operation has no effect (or, for the short-write mode, half of it)"]

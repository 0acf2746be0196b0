"""P01 a table written to a file is read back as the same table (specs: TableIO.tla, Records.tla)."""
import json, os, re, shutil, tempfile
from lib import vp
from lib.recgen import schema
from lib.tabgen import TableGen
from suites.p02 import validate

KINDS = ["GameItem", "Image", "Sound", "Font", "Collection"]
K = "Kinds={%s}" % ",".join('"%s"' % k for k in KINDS)


def cfg(n, p, e, i, kinds=KINDS):
    return "INIT Init\nNEXT Next\nCONSTANTS Kinds={%s} MaxLen=%d MaxParts=%d Emit=%s\nCHECK_DEADLOCK FALSE\n%s" % (
        ",".join('"%s"' % k for k in kinds), n, p, e, i)


def scratch(c):
    return tempfile.mkdtemp(prefix="vpxh-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else c.dir)


def run(c):
    inv = "INVARIANTS RoundTrip Counts Exactly\nVIEW View\n"
    c.tlc("TableIOMC", cfg(c.n(4, 7), 2, "FALSE", inv, KINDS if c.quick else KINDS[:2]),
          name="TableIOMC", coverage=True, timeout=1500)
    short = c.tlc("TableIOMC", cfg(3, 2, "TRUE", "", KINDS[:3]), name="gen", workers=1)
    c.rng.shuffle(short)
    short = short[:c.n(150, 3000)]
    long = c.tlc("TableIOMC", cfg(9, 4, "TRUE", ""), name="long", simulate=(c.n(150, 3000), 11), workers=1)
    ones = [[["load", 1], ["write", "a"], ["open", "a"], ["bytes"]]] * c.n(250, 4000)
    tg = TableGen(c.rng)
    S = schema("ItemSchema.json")
    byid = {s["id"]: n for n, s in S.items()}
    cases, inputs = [], []
    for prog in ones + short + long:
        v = c.rng.choice([1000, 1030, 1031, 1060, 1072, 1080, 1081, 1082])
        need = any(o[0] in ("add", "drop") for o in prog)
        t1 = tg.table(version=v)
        # parts to add exist in the second table, and both have the same version (sounds depend on it)
        t2 = tg.table(version=v, items=[tg.item()], images=[tg.image()], sounds=[tg.sound(v)], fonts=[tg.font()],
                      colls=[tg.collection()]) if need or len(prog) > 4 else tg.table(version=v)
        # abstract base 1 is the small table of the model; here both are arbitrary, so drop only what exists
        have = None
        ops = []
        disk = {}
        for o in prog:
            cnt = lambda t: {k: sum(1 for s in t["streams"] if re.fullmatch(f"GameStg/{k}\\d+", s["path"])) for k in KINDS}
            if o[0] == "load":
                have = cnt((t1, t2)[o[1] - 1])
            elif o[0] == "write":
                disk[o[1]] = dict(have)
            elif o[0] == "open":
                have = dict(disk[o[1]])
            elif o[0] == "add":
                have[o[1]] += 1
            elif o[0] == "drop":
                if not have[o[1]]:
                    continue
                have[o[1]] -= 1
            ops.append(o)
        cases.append({"id": len(cases), "bases": [t1["streams"], t2["streams"]], "ops": ops})
        inputs.append((v, t1, t2))
    work = scratch(c)
    try:
        res = c.harness("tableio", cases, args=[work], timeout=800)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    by = {x["id"]: x for x in cases}
    # 1. histories against TableIO
    traces = []
    for t in res:
        if "harness" in t:
            raise vp.ToolError(t["harness"])
        traces.append({"id": t["id"], "bases": t["bases"], "steps": t["steps"]})
    tb = {t["id"]: t for t in traces}
    for a in range(0, len(traces), 1500):
        part = traces[a:a + 1500]
        fn = os.path.join(c.dir, f"io-{a}.traces.ndjson")
        with open(fn, "w") as f:
            for t in part:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        bad = c.tlc("TableIOTrace", "INIT Init\nNEXT Next\nCONSTANTS " + K + "\nCHECK_DEADLOCK FALSE\n", name=f"trace-{a}",
                    env_extra={"VP_TRACES": fn}, heap="10g", timeout=900)
        if c.last["generated"] + sum(len(t["steps"]) for t in part if t["id"] in {b["id"] for b in bad}) < sum(len(t["steps"]) + 1 for t in part):
            raise vp.ToolError("trace validation did not replay every trace")
        c.traces += len(part)
        os.remove(fn)
        for v in bad:
            st = tb[v["id"]]["steps"][v["at"]]
            for w in v["why"]:
                c.violation(f"{v['op']}:{w}" + (":" + re.sub(r"\d+", "N", st.get("err", ""))[:80] if w == "failed" else ""),
                            {"history": by[v["id"]]["ops"], "step": v["at"], "got": st, "case": v["id"],
                             "table": json.dumps(by[v["id"]]["bases"])[:3000]})
    # 2. every stored part of every loaded table, field by field, against Records
    groups = {"ItemSchema.json": [], "GameDataSchema.json": [], "PartSchema.json": []}
    outs = {k: [] for k in groups}
    want = have = 0
    for t, (v, *bs) in zip(res, inputs):
        for bi, d in enumerate(t["dec"]):
            if d is None:
                continue
            ins = {s["path"]: s for s in bs[bi]["streams"]}
            for x in d:
                i = ins.get(x["path"])
                if i is None or "recs" not in i:
                    continue
                p = x["path"].split("/")[1]
                n = byid[i["type"]] if p.startswith("GameItem") else re.sub(r"\d+$", "", {"CustomInfoTags": "Tags"}.get(p, p))
                g = "ItemSchema.json" if p.startswith("GameItem") else "GameDataSchema.json" if n in ("GameData", "Collection") else "PartSchema.json"
                k = {"id": len(groups[g]), "n": n, "recs": i["recs"], "type": i.get("type")}
                groups[g].append(k)
                o = {q: x[q] for q in ("out", "err", "type") if q in x}
                o["id"] = k["id"]
                outs[g].append(o)
    for g in groups:
        idx = list(range(len(groups[g])))
        if c.quick and len(idx) > 700:
            idx = sorted(c.rng.sample(idx, 700))
        validate(c, [groups[g][i] for i in idx], [outs[g][i] for i in idx], g, None, name=g[:-5])
    c.notes["parts_compared"] = {g[:-11]: len(groups[g]) for g in groups}
    for k in cases[-4:]:
        c.sample({"ops": k["ops"], "streams": [s["path"] for s in k["bases"][0]][:8]})
    c.assumptions += ["counters match the parts; sound path extensions decide the sound layout as in the format; each image has bitmap data or file data, not both"]

"""P02 every item's data survives reading and writing, field by field (spec: Records.tla)."""
from lib.recgen import Gen, schema
import hashlib, json, os, re
from lib import vp

MC = ("INIT Init\nNEXT Next\nCONSTANTS MaxLen={n} Emit={e}\n"
      "INVARIANTS FieldsRight UnknownIrrelevant WriteReadIdentity Commutes\nCHECK_DEADLOCK FALSE\n")


VERSIONS = [900, 1000, 1060, 1070, 1072, 1074, 1079, 1080, 1080, 1081, 1082]


def templates(c, n):
    """All abstract reading histories up to length n, from TLC."""
    return c.tlc("RecordsMC", MC.format(n=n, e="TRUE").replace("INVARIANTS FieldsRight UnknownIrrelevant WriteReadIdentity Commutes\n", ""),
                 name="RecordsGen", workers=1)


def validate(c, cases, res, schema_file, prop_key, name="items", chunk=4000):
    """TLC trace validation of library loads/stores against Records.tla."""
    by = {r["id"]: r for r in res}
    traces = []
    for k in cases:
        r = by[k["id"]]
        t = {"id": k["id"], "n": k["n"], "recs": intern(k["recs"])}
        if "err" in r:
            t["err"] = r["err"]
        else:
            t["out"] = intern(r["out"])
            if "type" in r and r["type"] != k["type"]:
                t["err"] = f"item kind changed to {r['type']}"
        traces.append(t)
    bad = []
    for a in range(0, len(traces), chunk):
        fn = os.path.join(c.dir, f"{name}-{a}.traces.ndjson")
        with open(fn, "w") as f:
            for t in traces[a:a + chunk]:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        part = traces[a:a + chunk]
        out = c.tlc("RecordsTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", name=f"trace-{name}-{a}",
                    env_extra={"VP_SCHEMA": os.path.join(vp.SPEC, schema_file), "VP_TRACES": fn}, heap="8g")
        want = sum(len(t["recs"]) + 2 for t in part)
        if c.last["generated"] < want:
            raise vp.ToolError(f"trace validation did not replay every trace ({c.last['generated']} < {want})")
        c.traces += len(part)
        bad += out
        os.remove(fn)
    cd = {k["id"]: k for k in cases}
    for v in bad:
        k = cd[v["id"]]
        what = ",".join(v["tags"]) if v["tags"] else v["why"]
        what = re.sub(r"\d+", "N", what) if not v["tags"] else what
        c.violation(f"{k['n']}:{prop_key(k, v) if prop_key else what}", {"verdict": v, "case": trim(k), "got": trim(by[v["id"]])})
    return bad


def intern(rs):
    """Payloads are opaque to the specification: long ones are replaced by their length and digest."""
    o = []
    for r in rs:
        q = {"t": r["t"]}
        if "s" in r:
            q["s"] = intern(r["s"])
        else:
            p = r["p"]
            q["p"] = p if len(p) <= 200 else f"#{len(p)}:" + hashlib.sha256(p.encode()).hexdigest()[:24]
        o.append(q)
    return o


def trim(x):
    s = json.dumps(x)
    return x if len(s) < 6000 else s[:6000]


def gen_cases(c, S, kinds=None, per_tag=None, fulls=None, deco=True, pfx="", dens=0.1):
    """dens: share of unknown and over-long records in the decorated cases"""
    g = Gen(c.rng)
    g.deco = dens
    cases = []
    tmpl = templates(c, 2 if c.quick else 3)
    c.rng.shuffle(tmpl)
    ti = 0
    for n, s in list(S.items()):
        if kinds and n not in kinds:
            continue
        fs = s["f"]
        S["#"] = fs
        normal = [e for e in fs if e["m"] in ("always", "opt") and e["k"] not in ("masi", "mate", "phma")]
        lists = [e for e in fs if e["m"] == "list"]
        sub = n == "DragPoint"

        def add(recs):
            if sub:
                cases.append({"id": len(cases), "n": "Wall", "type": 0, "recs": [{"t": "DPNT", "k": "sub", "s": recs}]})
            else:
                if n == "Image" and {"BITS", "JPEG"} <= {r["t"] for r in recs}:
                    gone = c.rng.choice(["BITS", "JPEG"])      # an image is either a bitmap or an encoded file
                    recs = [r for r in recs if r["t"] != gone]
                k = {"id": len(cases), "n": n, "type": s["id"], "recs": recs}
                if n == "GameData":
                    k["version"] = c.rng.choice(VERSIONS)
                cases.append(k)
        # spec-generated histories instantiated with every field in role A
        for e in normal:
            for _ in range(per_tag):
                eb = c.rng.choice([x for x in normal if x is not e])
                add(g.template(tmpl[ti % len(tmpl)], e, eb, lists[0] if lists else None, S))
                ti += 1
        # complete objects in stored order / shuffled / with duplicates, unknown and over-long records
        for j in range(fulls):
            mode = j % 4
            r = g.full(fs, S, opt=c.rng.choice([0, 0.3, 0.7, 1]), shuffle=mode in (1, 3),
                       over=dens if mode >= 2 and deco else 0, unk=dens if mode >= 2 and deco else 0, alias=mode == 1)
            if mode == 3:
                r = r + g.history([e for e in fs if e["m"] in ("always", "opt")], S, 6)
            add(r)
    return cases


def run(c):
    S = schema("ItemSchema.json")
    c.tlc("RecordsMC", MC.format(n=c.n(3, 4), e="FALSE"), name="RecordsMC", coverage=True)
    cases = gen_cases(c, S, per_tag=c.n(4, 30), fulls=c.n(24, 400))
    res = c.harness("items", cases)
    validate(c, cases, res, "ItemSchema.json", None)
    c.notes["object_kinds"] = len(S)
    c.notes["fields"] = sum(len(s["f"]) for s in S.values() if isinstance(s, dict))
    for k in cases[:2000:400]:
        c.sample({"kind": k["n"], "stored": [r["t"] for r in k["recs"]][:12]})
    c.assumptions += ["field tables in spec/ItemSchema.json define what each item kind stores",
                      "values are drawn from boundary sets plus seeded random values; enumerated fields from their documented range"]

"""P04 unknown and over-long stored data never disturbs its neighbours (specs: Records.tla, BiffIO.tla)."""
import json, os, re
from lib.recgen import schema
from lib import vp
from suites.p02 import gen_cases, validate, MC

BMC = "INIT Init\nNEXT Next\nCONSTANTS NRec={r} MaxOps={o} Emit={e}\nINVARIANTS InRecord Ended OwnBytes\nCHECK_DEADLOCK FALSE\n"


def le(r, n):
    return [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n)]


def chars(r, kind):
    n = r.choice([0, 1, 2, 3, 5, 17, 40])
    if kind == "latin":
        return [r.choice([65, 122, 228, 255, 128, 1 + r.randrange(255)]) for _ in range(n)]
    return [r.choice([65, 228, 0x4e2d, 0xffff, 0x1f600, 0x10ffff, 0xe000, 1 + r.randrange(0xd000)]) for _ in range(n)]


def tag(r):
    return "".join(r.choice("ABCDXYZ019") for _ in range(r.choice([1, 2, 3, 4, 4, 4, 4])))


def enc(recs):
    o = b""
    for t, p in recs:
        o += (4 + len(p)).to_bytes(4, "little") + t.encode().ljust(4, b"\0") + bytes(p)
    return list(o + b"\x04\0\0\0ENDB")


SC = {"u8": 1, "u16": 2, "u32": 4, "32": 4, "i16": 2, "i32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8, "bool": 4}
AR = {"u16s": 2, "i16s": 2, "u32s": 4, "i32s": 4, "i64s": 8, "u64s": 8, "f32s": 4, "f64s": 8}


def reader_program(r, depth=0):
    """A random stream together with a random program of reads that stay inside each record."""
    recs, ops = [], []
    for _ in range(r.randrange(1, 5)):
        t, p, o, full = tag(r), [], [{"o": "next"}], False
        x = r.random()
        if x < 0.15 and depth < 2:
            d, sub = reader_program(r, depth + 1)
            recs.append((t, []))
            recs.append(("#child", d))
            ops += o + [{"o": "child", "ops": sub}]
            continue
        for _ in range(r.randrange(0, 5)):
            k = r.choice(list(SC) + list(AR) + ["str", "string", "wstring", "get", "data", "skip", "strings", "string", "wstring"])
            if k in SC:
                p += le(r, SC[k])
                o.append({"o": k})
            elif k in AR:
                n = r.randrange(0, 4)
                p += le(r, n * AR[k])
                o.append({"o": k, "n": n})
            elif k in ("string", "wstring"):
                c = chars(r, "latin" if k == "string" else "wide")
                b = bytes(c) if k == "string" else "".join(map(chr, c)).encode("utf-16-le")
                if k == "string" and r.random() < 0.3:
                    b += b"\0" + bytes(le(r, 3))
                p += list(len(b).to_bytes(4, "little") + b)
                o.append({"o": k})
            elif k == "strings":
                n = r.randrange(0, 3)
                for _ in range(n):
                    c = chars(r, "latin")
                    p += list(len(c).to_bytes(4, "little")) + c
                o.append({"o": k, "n": n})
            else:
                n = r.choice([0, 1, 2, 5, 16])
                p += le(r, n)
                o.append({"o": k, "n": n})
        x = r.random()
        if x < 0.25:
            p += le(r, r.randrange(0, 9))
            o.append({"o": r.choice(["record_data", "skip_tag"])})
        elif x < 0.7:
            if r.random() < 0.4:
                p += [8, 0, 0, 0] + list(b"NAME") + [1, 0, 0, 0]
            p += le(r, r.choice([0, 1, 2, 3, 4, 9]))   # left unread: the next record must not notice
        if x > 0.9 and len(t) == 4:
            o = [{"o": "next"}, {"o": "record_data_tag"}]
        recs.append((t, p))
        ops += o
    ops.append({"o": "next"})
    data, cur = [], []
    for t, p in recs:
        if t == "#child":
            data += p
        else:
            data += enc([(t, p)])[:-8]
    return data + enc([]), ops


def writer_program(r):
    w, ops = [], []
    for _ in range(r.randrange(1, 6)):
        t = tag(r)
        ops.append({"o": "next"})
        x = r.random()
        if x < 0.4:
            k = r.choice(["t_empty", "t_bool", "t_f32", "t_u32", "t_i32", "t_string", "t_wstring", "t_data", "t_vec2", "t_vec3", "t_vec3p"])
            n = {"t_empty": 0, "t_f32": 4, "t_u32": 4, "t_i32": 4, "t_vec2": 8, "t_vec3": 12, "t_vec3p": 12}.get(k)
            if k == "t_bool":
                v = [r.randrange(2)]
                ops.append({"o": "bool", "exp": v})
            elif k == "t_string":
                v = chars(r, "latin")
                ops.append({"o": "string", "exp": v})
            elif k == "t_wstring":
                v = chars(r, "wide")
                ops.append({"o": "wstring", "exp": v})
            elif k == "t_data":
                v = le(r, r.choice([0, 1, 5, 33]))
                ops.append({"o": "get", "n": len(v), "exp": v})
            else:
                v = le(r, n)
                q = {"t_empty": [], "t_f32": ["f32"], "t_u32": ["u32"], "t_i32": ["i32"], "t_vec2": ["f32"] * 2, "t_vec3": ["f32"] * 3, "t_vec3p": ["f32"] * 3}[k]
                for i, z in enumerate(q):
                    ops.append({"o": z, "exp": v[4 * i:4 * i + 4]})
            w.append({"o": k, "t": t, "v": v})
            continue
        w.append({"o": "new", "t": t, "v": []})
        for _ in range(r.randrange(0, 5)):
            k = r.choice(["u8", "8", "u16", "16", "u32", "32", "f32", "bool", "string", "short", "string0", "wstring", "lp", "data"])
            if k in ("u8", "8"):
                v = le(r, 1)
                ops.append({"o": "u8", "exp": v})
            elif k in ("u16", "16"):
                v = le(r, 2)
                ops.append({"o": "u16" if k == "u16" else "i16", "exp": v})
            elif k in ("u32", "32", "f32"):
                v = le(r, 4)
                ops.append({"o": k, "exp": v})
            elif k == "bool":
                v = [r.randrange(2)]
                ops.append({"o": "bool", "exp": v})
            elif k in ("string", "string0"):
                v = chars(r, "latin")
                ops.append({"o": "string", "exp": v})
            elif k == "short":
                v = chars(r, "latin")
                ops += [{"o": "u8", "exp": [len(v)]}, {"o": "str", "n": len(v), "exp": v}]
            elif k == "wstring":
                v = chars(r, "wide")
                ops.append({"o": "wstring", "exp": v})
            elif k == "lp":
                v = le(r, r.choice([0, 1, 7, 30]))
                ops += [{"o": "u32", "exp": list(len(v).to_bytes(4, "little"))}, {"o": "get", "n": len(v), "exp": v}]
            else:
                v = le(r, r.choice([0, 1, 7, 30]))
                ops.append({"o": "get", "n": len(v), "exp": v})
            w.append({"o": k, "t": "", "v": v})
        if r.random() < 0.7:
            w.append({"o": "end", "t": "", "v": []})
    w.append({"o": "close", "t": "", "v": []})
    ops.append({"o": "next"})
    return w, ops


def biff(c):
    c.tlc("BiffIOMC", BMC.format(r=2, o=c.n(4, 6), e="FALSE"), name="BiffIOMC", coverage=True)
    if not c.quick:
        c.tlc("BiffIOMC", BMC.format(r=3, o=5, e="FALSE"), name="BiffIOMC3", timeout=1500, heap="16g")
    progs = c.tlc("BiffIOMC", BMC.format(r=2, o=c.n(3, 4), e="TRUE"), name="BiffIOGen", workers=1, timeout=1500)
    c.notes["generated_reader_behaviours"] = len(progs)
    if c.quick and len(progs) > 6000:
        progs = c.rng.sample(progs, 6000)
    cases = [{"id": i, "data": p["data"], "ops": [{"o": o, "n": n} for o, n in p["ops"]]} for i, p in enumerate(progs)]
    for _ in range(c.n(1500, 30000)):
        d, ops = reader_program(c.rng)
        cases.append({"id": len(cases), "data": d, "ops": ops})
    for _ in range(c.n(1500, 30000)):
        w, ops = writer_program(c.rng)
        cases.append({"id": len(cases), "w": w, "ops": ops})
    res = c.harness("biff", cases)
    by = {r["id"]: r for r in res}
    traces = []
    for k in cases:
        t = dict(by[k["id"]])
        t.setdefault("data", [])
        t.setdefault("steps", [])
        for s in t["steps"]:
            if "tag" in s:
                s["tag"] = [ord(x) for x in s["tag"]]
        t["w"] = [dict(o, tc=[ord(x) for x in o["t"]]) for o in k.get("w", [])]
        traces.append(t)
    for a in range(0, len(traces), 5000):
        fn = os.path.join(c.dir, f"biff-{a}.traces.ndjson")
        part = traces[a:a + 5000]
        with open(fn, "w") as f:
            for t in part:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        bad = c.tlc("BiffIOTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", name=f"trace-biff-{a}", env_extra={"VP_TRACES": fn}, heap="8g", timeout=900)
        want = sum(1 + (0 if "err" in t else len(t["steps"]) + len(t["w"]) + 1) for t in part)
        if c.last["generated"] < want:
            raise vp.ToolError(f"replayed {c.last['generated']} of {want} steps")
        c.traces += len(part)
        os.remove(fn)
        cd = {k["id"]: k for k in cases}
        for v in bad:
            c.violation("biff:" + re.sub(r"\d+", "N", v["why"])[:80], {"verdict": v, "case": cd[v["id"]], "got": by[v["id"]]})
    c.sample({"program": cases[0]["ops"]})
    c.sample({"write_program": cases[-1]["w"][:8]})


def run(c):
    biff(c)
    c.tlc("RecordsMC", MC.format(n=c.n(3, 4), e="FALSE"), name="RecordsMC")
    S = schema("ItemSchema.json")
    cases = gen_cases(c, S, per_tag=c.n(1, 20), fulls=c.n(24, 400), dens=0.5)
    validate(c, cases, c.harness("items", cases), "ItemSchema.json", None)
    S = schema("GameDataSchema.json")
    cases = gen_cases(c, S, kinds=("GameData",), per_tag=c.n(2, 20), fulls=c.n(60, 1000), dens=0.5)
    validate(c, cases, c.harness("gamedata", cases), "GameDataSchema.json", None, name="gamedata")
    cases = gen_cases(c, S, kinds=("Collection",), per_tag=c.n(10, 100), fulls=c.n(40, 400), dens=0.5)
    validate(c, cases, c.harness("collection", cases), "GameDataSchema.json", None, name="collection")
    S = schema("PartSchema.json")
    cases = gen_cases(c, S, kinds=("Image", "Font", "Tags"), per_tag=c.n(30, 200), fulls=c.n(100, 2000), dens=0.4)
    validate(c, cases, c.harness("parts", cases), "PartSchema.json", None, name="parts")
    c.assumptions += ["records the reader is given have tags of 1 to 4 characters and declared sizes inside the stream"]

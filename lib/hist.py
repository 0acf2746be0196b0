"""Histories of operations on table files: from TLC to real files and back (spec: Container*.tla)."""
import json, os, re, shutil, tempfile
from lib import vp
from lib.recgen import schema
from lib.tabgen import TableGen

INV = "INVARIANTS AlwaysSigned TamperSeen CounterExact LockParity ScriptKnown\nPROPERTY Frame\n"
CFG = "INIT Init\nNEXT Next\nCONSTANTS W={w} MaxLen={n} Ops={ops} Emit={e} MinEmit={m}\nCHECK_DEADLOCK FALSE\n"
ALL = ["lock", "unlock", "is_locked", "read", "verify", "compact", "reopen", "setgd", "import", "import_bad", "extract", "edit", "webp",
       "rewrite", "tamper", "restore"]


def cfg(ops, n, emit, m=None, w=4, inv=True):
    s = CFG.format(w=w, n=n, ops="{" + ",".join('"%s"' % o for o in ops) + "}", e="TRUE" if emit else "FALSE", m=n if m is None else m)
    return s + (INV if inv else "") + ("" if emit else "VIEW View\n")


W = 4
STEMS = [("T", ".vpx"), ("my.table.v1", ".vpx"), ("noext", ""), (".hidden", ".vpx"), ("Tisch \u00e4 \u4e2d", ".vpx"), ("T", ".VPX"), ("a b", ".bak"),
         ("x.vbs", ".vpx")]
SCALARS = [e["t"] for e in schema("GameDataSchema.json")["GameData"]["f"] if e["k"] in ("f32", "bool", "i32", "color")]


def counter(c, r):
    """the model's small counter -> a real one with the same behaviour"""
    if c == []:
        return None
    if c == [W - 1, W - 1]:
        return 0xffffffff
    if c == [W - 1, W - 2]:
        return 0xfffffffe
    lo = c[1]
    return lo + 2 * r.choice([0, 0, 1, 5, 0x7fff, 0x10000])


SCRIPTS = ["", "x", "Option Explicit\r\n' caf\u00e9 \u4e2d\u6587\r\nSub A\r\nEnd Sub\r\n", "\ufeffDim x", "' \u00e4\u00f6\u00fc \u0152", "line\nline\rline\r\n\t\u2028",
           "'" * 4095, "\u00e9" * 2048, "ENDB\x04\0\0\0CODE".replace("\0", " "), "a" * 70000, " trailing  \r\n\r\n"]
BAD = [b"\xff\xfe\x41\x00", b"caf\xe9\r\n", b"\xc3", b"\xed\xa0\x80x"]


class Concrete:
    """turns abstract operations into concrete ones"""
    def __init__(self, r, side_default):
        self.r = r
        a, b = r.sample(SCRIPTS, 2)
        self.text = {"s1": a.encode(), "s2": b.encode(), "junk": r.choice(BAD), "absent": None}
        self.other = r.choice(["sub/x.vbs", "scr.txt", "sub/noext", "other.vbs"])
        self.sd = side_default

    def op(self, o):
        r = self.r
        k = o[0]
        if k in ("import", "import_bad", "extract", "edit"):
            # an explicit path may name the default file too
            p = None if o[1] == "default" and (k == "edit" or r.random() < 0.8) else (self.sd if o[1] == "default" else self.other)
            if k == "edit":
                t = self.text[o[2]]
                return ["edit", p or self.sd, None if t is None else t.hex()]
            return ["import", p] if k != "extract" else ["extract", p, bool(o[2])]
        if k == "setgd":
            return ["setgd", int(o[1][1:])]
        if k == "reopen":
            return ["open"]
        if k == "read":
            return [r.choice(["read", "query", "paths"])]
        if k == "tamper":
            t = o[1]
            if t == "info":
                t = "info:" + r.choice(["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb",
                                        "TableDescription", "TableRules", "Screenshot"])
            elif t == "settings":
                t = "settings:" + r.choice(SCALARS)
            elif t == "codeb":
                t = "codeb:" + r.choice(["first", "cut", "add"])
            elif t == "savedate":
                t = r.choice(["savedate", "saverev"])
            return ["tamper", t]
        return [k]


def make_case(cid, prog, tg, canon=None, keep=0.5, rich=True):
    r = tg.r
    stem, ext = r.choice(STEMS)
    canon = r.random() < 0.7 if canon is None else canon
    if any(o[0] in ("webp", "rewrite") for o in prog["ops"]):
        canon = True
    v = r.choice([1000, 1060, 1070, 1072, 1074, 1080, 1081, 1082])
    if any(o[:2] == ["tamper", "version"] for o in prog["ops"]):
        v = r.choice([1000, 1060, 1070, 1072, 1074, 1082])
    kinds = ["png", "bmp", "raw", "link", "png", "bmp"]
    imgs = [tg.image(name=f"i{i}" + r.choice(["", "\u00e4"]), kind=r.choice(kinds)) for i in range(r.randrange(0, 4) if r.random() > .03 else r.choice([12, 17, 40]))] if rich else []
    items = [tg.item() for _ in range(r.randrange(0, 3))] if rich else []
    lock = counter(prog["lock"], r)
    code = r.choice([s.encode() for s in SCRIPTS[:8]] + [b"' caf\xe9 \xff\r\n", tg.script()])
    t = tg.table(version=v, items=items, images=imgs, lock=lock, code=code, extra=(not canon and r.random() < 0.4), opt=r.choice([0, 0.5, 1]))
    cz = Concrete(r, stem + ".vbs")
    ops = [{"op": cz.op(o), "keep": r.random() < keep} for o in prog["ops"]]
    return {"id": cid, "file": stem + ext, "side_default": stem + ".vbs", "ini_default": stem + ".ini", "canon": canon, "streams": t["streams"],
            "clsid": t["clsid"], "ops": ops, "abs": prog, "v": v}


def run_histories(c, cases, mine, name="hist", chunk=1500):
    """replays, validates with TLC, reports the failed clauses selected by mine(op, clause)"""
    work = tempfile.mkdtemp(prefix="vpxh-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else c.dir)
    try:
        res = c.harness("container", cases, name=name, args=[work], timeout=800)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    by = {x["id"]: x for x in cases}
    traces = []
    for t in res:
        if "err" in t or "broken" in t["first"]:
            raise vp.ToolError(f"base table of case {t['id']} unusable: {t.get('err') or t['first']}")
        prev = t["first"]
        for s in t["steps"]:
            if isinstance(s["res"], str):
                if s["res"].startswith("harness"):
                    raise vp.ToolError(f"case {t['id']}: {s['res']}")
                s["ok"] = not re.match(r"(err|panic)", s["res"])
                s["rp"] = ""
                if s["op"] in ("import", "extract", "verify") and s["ok"] and " " in s["res"]:
                    s["res"], s["rp"] = s["res"].split(" ", 1)
            else:
                s["ok"], s["rp"] = True, ""
            if isinstance(s["want"], dict):
                s["want"] = ""
            del s["dir"]
        t["canon"] = by[t["id"]]["canon"]
        t["side0"] = {}
        traces.append(t)
    bad = []
    for a in range(0, len(traces), chunk):
        part = traces[a:a + chunk]
        fn = os.path.join(c.dir, f"{name}-{a}.traces.ndjson")
        with open(fn, "w") as f:
            for t in part:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        out = c.tlc("ContainerTrace", "INIT Init\nNEXT Next\nCONSTANTS W=65536\nCHECK_DEADLOCK FALSE\n", name=f"trace-{name}-{a}",
                    env_extra={"VP_TRACES": fn}, heap="10g", timeout=800)
        if c.last["generated"] < sum(len(t["steps"]) + 1 for t in part):
            raise vp.ToolError("trace validation did not replay every trace")
        c.traces += len(part)
        bad += out
        os.remove(fn)
    tb = {t["id"]: t for t in traces}
    n = 0
    for v in bad:
        for why in v["why"]:
            if not mine(v["op"], why):
                c.notes.setdefault("other_clauses", []).append(f"{v['op']}:{why}")
                continue
            n += 1
            st = tb[v["id"]]["steps"][v["at"]]
            case = by[v["id"]]
            c.violation(f"{v['op']}:{why}", {"history": case["ops"][:v["at"] + 1], "step": v["at"], "result": st["res"], "failed": why,
                                             "file": case["file"], "case": {k: case[k] for k in ("id", "canon", "v", "abs")},
                                             "observed": st.get("obs", "unchanged")})
    c.notes["steps_replayed"] = c.notes.get("steps_replayed", 0) + sum(len(t["steps"]) for t in traces)
    return traces

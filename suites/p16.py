"""P16 the in-memory file system behaves like the disk (spec: FileSys.tla; generated histories replayed on both, judged by FileSysTrace.tla)."""
import json, os, shutil, tempfile
from lib import vp

CFG = ("INIT Init\nNEXT Next\n{view}CONSTANTS Paths = {paths} Writers = {w} Readers = {r} Data = {{\"x\",\"yz\",\"\"}} MaxOps = {n} Flaws = {f} Emit = {e}\n"
       "INVARIANTS Agree ReadersAgree NothingElse\nCHECK_DEADLOCK FALSE\n")
S = lambda xs: "{" + ",".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
# spellings of the specification's paths a, b, c
NAMES = [
    {"a": ["a"], "b": ["b"], "c": ["c"]},
    {"a": ["d/a.json"], "b": ["d/a.json.obj"], "c": ["d/a"]},
    {"a": ["Abc"], "b": ["abc"], "c": ["aBC"]},
    {"a": ["d/x"], "b": ["x"], "c": ["d/d/x"]},
    {"a": ["\u00e9 \u4e2d"], "b": ["e\u0301 \u4e2d"], "c": [" a"]},
    {"a": ["d/a", "d//a", "d/./a"], "b": ["b"], "c": ["d/b", "d/././b"]},
    {"a": ["a b%20", "./a b%20"], "b": ["a b "], "c": ["a\\b"]},
]
RAW = [{"a": [b"x\xff"], "b": [b"x\xfe"], "c": ["x\ufffd".encode()]}, {"a": [b"\xc3/a"], "b": [b"\xc3\xa9/a"], "c": [b"a"]}]


def run(c):
    def mc(name, paths, w, n, f=(), emit=False, simulate=None, **kw):
        return c.tlc("FileSysMC", CFG.format(view="" if simulate else "VIEW View\n", paths=S(paths), w=S(w), r="{1}", n=n, f=S(f), e="TRUE" if emit else "FALSE"),
                     name=name, simulate=simulate, expect_ok=not f, **kw)

    def flaw(f):
        mc("flaw-" + f, ["a", "b"], [1], 5, f=[f])
        if c.last["code"] != 12:
            raise vp.ToolError(f"the specification does not notice the flaw {f}")
    mc("explore", ["a", "b"], [1, 2], c.n(8, 11), heap="10g")
    c.parallel([lambda f=f: flaw(f) for f in ("no-flush", "no-close", "flush-forgets", "append", "shared-key")])
    short = mc("short", ["a", "b"], [1], 4, emit=True)
    long_ = mc("long", ["a", "b", "c"], [1, 2, 3], c.n(25, 60), emit=True, simulate=(c.n(150, 1500), c.n(25, 60) + 1), workers=1)
    key = lambda x: json.dumps(x, sort_keys=True)
    short.sort(key=key)
    long_.sort(key=key)
    r = c.rng
    r.shuffle(short)
    r.shuffle(long_)
    short, long_ = short[:c.n(2500, 23000)], long_[:c.n(1200, 10000)]
    cases = []
    for x in short + long_:
        text = r.random() < 0.9 or any(o["op"] in ("delete", "clear") for o in x["ops"])
        nm = r.choice(NAMES if text else RAW)
        ops = [dict(o, s=r.randrange(3)) for o in x["ops"]]
        cases.append({"id": len(cases), "text": text, "unit": r.choice([1, 1, 3, 700, 9000] if len(ops) < 30 else [1, 5000]),
                      "paths": {k: [(s.encode() if isinstance(s, str) else s).hex() for s in v] for k, v in nm.items()}, "ops": ops})
    crowd = []
    for i in range(c.n(60, 600)):
        ws = []
        for w in range(r.choice([2, 4, 8])):
            l = []
            for k in range(r.choice([3, 10, 30])):
                d = "w%dk%d" % (w, k)
                kind = r.randrange(3)
                l.append({"p": "w%d/%d" % (w, k if r.random() < .8 else 0), "do": [["put", d]] if kind == 0 else [["create", ""], ["write", d], ["close", ""]] if kind == 1 else
                          [["create", ""], ["write", d], ["flush", ""], ["write", "+"], ["close", ""]]})
            ws.append(l)
        crowd.append({"id": len(cases) + i, "workers": ws})
    work = tempfile.mkdtemp(prefix="vpxs-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else c.dir)
    try:
        res = c.harness("filesys", cases + crowd, args=[work])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    hist = [x for x in res if "ops" in x]
    for x in hist:
        for o in x["ops"]:
            o.pop("s", None)
            o.setdefault("buf", False)
    fn = os.path.join(c.dir, "traces.ndjson")
    with open(fn, "w") as f:
        for x in hist:
            f.write(json.dumps(x) + "\n")
    bad = c.tlc("FileSysTrace", "INIT Init\nNEXT Next\nCONSTANTS Paths = {\"a\",\"b\",\"c\"} Writers = {1,2,3} Readers = {1} Data = {} Flaws = {}\nCHECK_DEADLOCK FALSE\n", name="trace",
                env_extra={"VP_TRACES": fn}, workers=1, heap="8g")
    steps = sum(len(x["ops"]) for x in hist)
    if c.last["generated"] < steps + len(hist) + 1:
        raise vp.ToolError("trace validation did not replay every trace")
    os.remove(fn)
    c.traces += len(hist) + len(crowd)
    by = {x["id"]: x for x in res}
    inp = {x["id"]: x for x in cases}
    for v in bad:
        o = by[v["id"]]["ops"][v["at"] - 1]
        raw = "" if inp[v["id"]]["text"] else " (paths that are not text)"
        for why in v["why"]:
            c.violation(f"{why} after {o['op']}{raw}", {"history": by[v["id"]]["ops"][:v["at"]][-8:], "paths": inp[v["id"]]["paths"], "unit": inp[v["id"]]["unit"]})
    for x in res:
        if "bad" in x:
            if x["bad"]:
                c.violation("concurrent workers lose or mix up files", {"case": x["id"], "bad": x["bad"][:5]})
            if x["files"] != x["want"]:
                c.violation("concurrent workers: number of files", {"case": x["id"], "files": x["files"], "want": x["want"]})
    c.notes["operations_replayed"] = steps
    c.notes["concurrent_histories"] = len(crowd)
    c.sample(short[0])
    c.sample({"random": long_[0]["ops"][:12]})
    c.assumptions += ["directories of the files exist; only files are asked about", "one writer per file at a time; a file is not removed while it is written",
                      "between the first write and the next flush or close the content of a file is not compared", "paths without '..'"]

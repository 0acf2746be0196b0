"""P17 editing a table in memory keeps it consistent (spec: Edit.tla; generated histories replayed on real tables, judged by EditTrace.tla)."""
import json, os, shutil, tempfile
from lib import vp
from lib import expandlib as X

CFG = ("INIT Init\nNEXT Next\nVIEW View\nCONSTANTS MaxOps = {n} Emit = {e} Names = {names} Flaws = {f}\n"
       "INVARIANTS Counters NoError Unique\nPROPERTY Keeps\nCHECK_DEADLOCK FALSE\n")
# texts for the specification's names A, a, B, b, x
NAMES = [("A", "a", "B", "b", "x"), ("Ball", "bALL", "Bumper", "bumpeR", "Bal"), ("Z\u00e9", "z\u00e9", "Z", "z", "Z\u00c8"), ("a", "A", "A ", "a ", ""),
         ("playfield_1", "PLAYFIELD_1", "Playfield-1", "playfielD-1", "playfield_10"), ("\u00fcX", "\u00fcx", "[", "[", "{"), ("A" * 50 + "z", "a" * 50 + "Z", "A" * 50, "a" * 50, "A" * 49)]
SCRIPTS = ["", "Option Explicit\r\n", "' caf\u00e9 \u4e2d\u6587\r\n", "'\ufeff", "x" * 5000, "\u00e9", "'\n\n", "\U0001f600\x01"]
STARTS = ["bytes", "file", "dir"]


def run(c):
    def mc(name, n, f=(), emit=False, simulate=None, names="AaBx", **kw):
        S = lambda xs: "{" + ",".join(f'"{x}"' for x in xs) + "}"
        cfg = CFG.format(n=n, e="TRUE" if emit else "FALSE", names=S(names), f=S(f))
        return c.tlc("EditMC", cfg.replace("VIEW View\n", "") if simulate else cfg, name=name, simulate=simulate, expect_ok=not f, **kw)

    def flaw(f):
        mc("flaw-" + f, 4, f=[f])
        if c.last["code"] not in (12, 13):
            raise vp.ToolError(f"the specification does not notice the flaw {f}: {c.last['code']}")
    mc("explore", c.n(6, 7), heap="10g")
    c.parallel([lambda f=f: flaw(f) for f in ("case-sensitive", "no-count", "replace-moves", "count-on-replace")])
    short = mc("short", 3, emit=True)
    long_ = mc("long", c.n(25, 60), emit=True, names="AaBbx", simulate=(c.n(60, 600), c.n(25, 60) + 1), workers=1)
    key = lambda x: json.dumps(x, sort_keys=True)
    short.sort(key=key)
    long_.sort(key=key)
    r = c.rng
    r.shuffle(short)
    r.shuffle(long_)
    short, long_ = short[:c.n(1200, 6000)], long_[:c.n(250, 3000)]
    tg = X.gen(c)
    cases, back = [], {}
    for x in short + long_:
        nm = dict(zip("AaBbx", r.choice(NAMES)))
        small = r.random() < .7
        kw = dict(opt=0) if small else {}
        path = lambda i: "C:\\t\\" + i + ".jpg"
        start = tg.table(items=[tg.item(r.choice(tg.kinds[:1] + ["Light", "Wall", "Decal", "Timer"]) if small else None, name=i, **kw) for i in x["start"]["items"]],
                         images=[tg.image(nm[a], kind="raw", path=path(i)) for a, i in x["start"]["imgs"]], code=b"s0", lock=r.choice([None, None, 0, 1, 2, 7]),
                         **(dict(sounds=[], fonts=[], colls=[], opt=0, tags={}, info={}) if small else {}))
        pool = tg.table(items=[tg.item(r.choice(["Light", "Bumper", "Rubber"]) if small else None, name=o["i"], **kw) for o in x["ops"] if o["op"] == "item"],
                        images=[tg.image("p", kind="raw", path="p.jpg") for o in x["ops"] if o["op"] == "image"], sounds=[], fonts=[], colls=[], opt=0, tags={}, info={}, code=b"", version=start["version"])
        texts = {}
        ops = []
        for o in x["ops"]:
            o = dict(o)
            if o["op"] == "image":
                o["text"] = nm[o["name"]]
            if o["op"] == "script":
                o["text"] = r.choice(SCRIPTS) + ("'" + o["i"] if r.random() < .9 else "")
                if o["text"] in texts and texts[o["text"]] != o["i"] or o["text"] == "s0":
                    o["text"] += "'" + o["i"]
                texts[o["text"]] = o["i"]
            ops.append(o)
        i = len(cases)
        cases.append({"id": i, "streams": start["streams"], "pool": pool["streams"], "ops": ops})
        rev = {}
        for k, v in nm.items():
            rev.setdefault(v, k)
        back[i] = (rev, texts, x["start"])
    work = tempfile.mkdtemp(prefix="vpxd-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else c.dir)
    try:
        res = c.harness("edit", cases, args=[work])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    fn = os.path.join(c.dir, "traces.ndjson")
    saves = 0
    by = {x["id"]: x for x in res}
    with open(fn, "w") as f:
        for x in res:
            if "harness" in x:
                raise vp.ToolError(f"case {x['id']}: {x['harness']}")
            rev, texts, start = back[x["id"]]
            ops = []
            for o in x["ops"]:
                saves += o["op"] == "save"
                ops.append(dict(o, imgs=[[rev.get(a, a), i] for a, i in o["imgs"]], script=texts.get(o["script"], o["script"]), name=rev.get(o.get("text"), "-"),
                                ret=o["ret"].split(":")[0], i=o.get("i", ""), how=o.get("how", "")))
                ops[-1].pop("text", None)
            f.write(json.dumps({"id": x["id"], "start": start, "ops": ops}) + "\n")
    bad = c.tlc("EditTrace", "INIT Init\nNEXT Next\nCONSTANTS Flaws = {}\nCHECK_DEADLOCK FALSE\n", name="trace", env_extra={"VP_TRACES": fn}, workers=1, heap="8g")
    steps = sum(len(x["ops"]) for x in res)
    if c.last["generated"] < steps + len(res) + 1:
        raise vp.ToolError("trace validation did not replay every trace")
    os.remove(fn)
    c.traces += len(res)
    for v in bad:
        o = by[v["id"]]["ops"][v["at"] - 1]
        for why in v["why"]:
            d = o["diff"][0] if why == "saving changes the table" and o["diff"] else []
            c.violation(f"{why} after {o['op']} {o.get('how', '')} {d[1] if len(d) > 1 else ''}".strip(), {"history": [{k: str(w)[:300] for k, w in q.items()} for q in by[v["id"]]["ops"][:v["at"]][-5:]]})
    c.notes["operations_replayed"] = steps
    c.notes["saves"] = saves
    c.sample(short[0])
    c.sample({"random": long_[0]["ops"][:12]})
    c.assumptions += ["the table edited starts with counters equal to its parts and image names that differ in more than case", "image names differ only in the case of the letters A to Z"]

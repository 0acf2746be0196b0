"""P19 compressed bitmap data is lossless and found exactly (spec: Lzw.tla; real compressed streams run through its decoder in LzwTrace.tla)."""
import json, os
from lib import vp, lzwlib
from lib import expandlib as X
from lib.tabgen import blocks, rec
from lib.recgen import u32, st

CFG = ("INIT Init\nNEXT Next\nCONSTANTS LitBits = 2 MaxWidth = {w} ByteBits = 3 MaxBlock = 5 Symbols = {{0,1,3}} MaxLen = {n} Flaws = {f} MA = {ma} MB = {mb}\n"
       "CONSTANT Marker <- M\nINVARIANTS Restored Framed Progress\nCHECK_DEADLOCK FALSE\n")
TRACE = ("INIT Init\nNEXT Next\nVIEW View\nCONSTANTS LitBits = 8 MaxWidth = 12 ByteBits = 8 MaxBlock = 254 Flaws = {}\nCONSTANT Marker <- NoMarker\nCHECK_DEADLOCK FALSE\n")


def data(r, n):
    k = r.randrange(9)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if k == 1:
        return bytes([r.randrange(256)]) * n
    if k == 2:
        a = [r.randrange(256) for _ in range(2)]
        return bytes(r.choice(a) for _ in range(n))
    if k == 3:
        px = [bytes([r.randrange(256), r.randrange(256), r.randrange(256), 255]) for _ in range(r.choice([1, 3, 20]))]
        return b"".join(r.choice(px) * r.choice([1, 1, 7, 90]) for _ in range(n // 4 + 1))[:n]
    if k == 4:
        return bytes((i * r.choice([1, 3, 7]) + i // 256) % 256 for i in range(n))
    if k == 5:
        w = bytes(r.randrange(256) for _ in range(r.choice([2, 3, 5, 100])))
        return (w * (n // len(w) + 1))[:n]
    if k == 6:
        return (b"ALTV\x08\0\0\0" * (n // 8 + 1))[:n]
    if k == 7:
        out = bytearray()
        while len(out) < n:
            if out and r.random() < .4:
                i = r.randrange(len(out))
                out += out[i:i + r.choice([2, 3, 8, 40])]
            else:
                out.append(r.randrange(256))
        return bytes(out[:n])
    return lzwlib.walk(r, n) if n else b""


def run(c):
    r = c.rng

    def mc(name, n, w, f=(), ma=2, mb=0):
        fl = "{%s}" % ",".join(f'"{x}"' for x in f)
        c.tlc("LzwMC", CFG.format(n=n, w=w, f=fl, ma=ma, mb=mb), name=name, expect_ok=not f, workers=2 if f else 4, heap="4g")
        if f and c.last["code"] != 12:
            raise vp.ToolError(f"the specification does not notice the flaw {f}")
    jobs = [lambda: mc("explore3", c.n(7, 9), 3), lambda: mc("explore4", c.n(7, 9), 4, ma=3, mb=0)]
    jobs += [lambda: mc("explore5", c.n(6, 9), 5, ma=2, mb=3)]
    # (the flaw first-marker: a block can look like the next record)
    jobs += [lambda f=f: mc("flaw-" + f, 6, 3 if f in ("first-marker", "no-clear") else 4, [f]) for f in ("first-marker", "any-marker", "early-width", "no-clear", "no-kwkwk")]
    c.parallel(jobs, width=4)
    cases = []
    add = lambda **k: cases.append(dict(k, id=len(cases))) or cases[-1]["id"]
    for n in list(range(0, 40)) + [252, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512]:
        add(mode="compress", data=data(r, n).hex())
    for _ in range(c.n(350, 4000)):
        add(mode="compress", data=data(r, r.choice([3, 17, 100, 300, 700, 1500])).hex())
    # data that ends next to the end of a block
    edge = lzwlib.edges(r, c.n(800, 4000), per=c.n(1, 12))
    c.notes["block_edges"] = len(edge)
    for _, d in edge:
        add(mode="compress", data=d.hex())
    # tables that fill up and are cleared
    for _ in range(c.n(5, 60)):
        add(mode="compress", data=data(r, r.choice([4200, 6000, 9000])).hex())
    # streams other encoders may write
    for _ in range(c.n(250, 3000)):
        d = data(r, r.choice([0, 1, 5, 60, 300, 900, 6000 if r.random() < .1 else 40]))
        cs = lzwlib.codes_of(d, clear_at=r.choice([4096, 4095, 4094, 300, 260, 512, 513, 1024]), greedy=r.choice([1, 1, .9, .3]), r=r)
        add(mode="decompress", data=d.hex(), blocks=blocks(lzwlib.pack(cs), r.choice([254, 255, 255, 1, 2, 100])).hex())
    # streams and data that look like the next record
    fakes = []
    for _ in range(c.n(3, 12)):
        b, d = lzwlib.fake_stream(r)
        fakes.append((d, b))
        add(mode="decompress", data=d.hex(), blocks=b.hex())
    got = {}

    def real(ds):
        res = c.harness("lzw", [{"id": i, "mode": "compress", "data": d.hex()} for i, d in enumerate(ds)], name="craft")
        return [bytes.fromhex(x.get("blocks", "")) for x in sorted(res, key=lambda x: x["id"])]
    try:
        f = lzwlib.fake_data(r, real)
    except Exception as e:      # not a stream the generator understands: the other cases judge it
        f = None
        c.notes["no look-alike data"] = repr(e)[:100]
    if f:
        fakes.append((f[0], f[1]))
    c.notes["look_alike_data"] = bool(f)
    res = c.harness("lzw", cases)
    by = {}
    for x in res:
        got[x["id"]] = x
    # bitmaps in tables
    tg = X.gen(c)
    tabs = []
    for i in range(c.n(250, 3000)):
        imgs, want = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            x = tg.image(kind="bmp")
            w, h = r.choice([(1, 1), (2, 2), (5, 3), (64, 4), (20, 20)])
            if r.random() < .15 and fakes:
                d, b = r.choice(fakes)
                w, h = len(d), 1
            else:
                d = data(r, w * h * 4)
                cs = lzwlib.codes_of(d, clear_at=r.choice([4096, 300, 512]), greedy=r.choice([1, .9]), r=r)
                b = blocks(lzwlib.pack(cs), r.choice([254, 254, 255, 100]))
            for q in x["recs"]:
                if q["t"] == "BITS":
                    q["p"] = b.hex()
                elif q["t"] in ("WDTH", "HGHT"):
                    q["p"] = u32(w if q["t"] == "WDTH" else h)
            imgs.append(x)
            want.append(b.hex())
        t = tg.table(items=[], images=imgs, sounds=[], fonts=[], colls=[], opt=0, info={}, tags={}, code=b"")
        tabs.append({"id": i, "mode": "record", "streams": t["streams"], "want": want})
    for x in c.harness("lzw", [{k: v for k, v in t.items() if k != "want"} for t in tabs], name="records"):
        t = tabs[x["id"]]
        if "panic" in x or "error" in x:
            c.violation("a table with bitmaps is not read: " + str(x.get("panic") or x.get("error"))[:80], {"bits": [w[-60:] for w in t["want"]]})
            continue
        for w, b in zip(t["want"], x["bits"]):
            if w != b:
                c.violation("the bitmap data of an image is not the bytes that belong to it", {"want": [len(w) // 2, w[-60:]], "got": [len(b or "") // 2, (b or "")[-60:]]})
        if x["diff"]:
            c.violation("an image with a bitmap is not written as it was stored", {"diff": x["diff"][:4]})
    c.evals += len(tabs)
    steps = 0
    parts = [[0, []] for _ in range(7)]
    for x in sorted(cases, key=lambda x: -len(x["data"])):
        g = got.get(x["id"])
        if g is None:
            continue
        if "panic" in g:
            c.violation(f"{x['mode']}ing aborts: {g['panic'][:80]}", {"data": x["data"][:400], "blocks": x.get("blocks", "")[:400]})
            continue
        b = bytes.fromhex(g.get("blocks") or x["blocks"])
        by[x["id"]] = b
        steps += len(b)
        p = min(parts, key=lambda p: p[0])
        p[0] += len(b) + (len(b) ** 2) // 3000
        p[1].append({"id": x["id"], "mode": x["mode"], "data": list(bytes.fromhex(x["data"])), "blocks": list(b), "back": g["back"], "more": []})

    def judge(k):
        fn = os.path.join(c.dir, f"traces{k}.ndjson")
        with open(fn, "w") as f:
            for y in parts[k][1]:
                f.write(json.dumps(y) + "\n")
        out = c.tlc("LzwTrace", TRACE, name=f"trace{k}", env_extra={"VP_TRACES": fn}, workers=1, heap="3g", timeout=850)
        n = c.last["generated"]
        os.remove(fn)
        if n < sum(len(y["blocks"]) for y in parts[k][1]):
            raise vp.ToolError("trace validation did not run every stream")
        return out
    bad = sum(c.parallel([lambda k=k: judge(k) for k in range(len(parts)) if parts[k][1]], width=7), [])
    c.traces += len(by)
    for v in bad:
        x = cases[v["id"]]
        for why in v["why"]:
            if x["mode"] == "decompress" and why.startswith("the compressed form"):
                raise vp.ToolError(f"generated stream: {why}")
            c.violation(f"{x['mode']}: {why}", {"data": x["data"][:400], "length": len(x["data"]) // 2, "blocks": by[v["id"]].hex()[:400]})
    c.notes["bytes_decoded_by_the_specification"] = steps
    c.notes["bitmaps_in_tables"] = sum(len(t["want"]) for t in tabs)
    c.sample({"data": cases[60]["data"][:80], "blocks": by.get(60, b"").hex()[:80]})
    c.assumptions += ["the record after a bitmap is ALTV, as the writers of the format have it", "streams end with the end code"]

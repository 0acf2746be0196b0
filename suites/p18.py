"""P18 sounds keep their data through storage and wave files (spec: Wav.tla; its files, sounds and records given to the library, judged by WavTrace.tla)."""
import json, os, struct
from lib import vp
from lib import expandlib as X
from lib.recgen import u32, st

S = lambda xs: "{" + ",".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
CFG = ("INIT Init\nNEXT Next\nCONSTANTS MaxLen = {n} Cuts = {cuts} FmtSizes = {fs} Sizes = {s} Flaws = {f} Emit = {e} Versions = {v}\nINVARIANTS Right Ends\nCHECK_DEADLOCK FALSE\n")
VERSIONS = [600, 900, 1000, 1030, 1031, 1032, 1050, 1060, 1070, 1072, 1080, 1081, 1082]
OTHER = [b"LIST", b"JUNK", b"fact", b"bext", b"cue ", b"smpl", b"id3 ", b"    ", b"Data", b"FMT ", b"fmt_", b"dat ", b"PEAK", b"RIFF", b"WAVE"]
TAGS = [1, 1, 2, 3, 6, 7, 17, 49, 0x55, 0xfffe, 0, 0xffff]


def wave(r):
    """tag, channels, rate, bytes per second, align, bits, cbSize"""
    if r.random() < .4:
        ch, sps, bps = r.choice([1, 2, 6]), r.choice([8000, 22050, 44100, 96000]), r.choice([4, 8, 16, 24, 32])
        return [r.choice(TAGS), ch, sps, sps * ch * bps // 8, ch * bps // 8, bps, 0]
    e16, e32 = [0, 1, 2, 0x7fff, 0x8000, 0xffff], [0, 1, 44100, 0x7fffffff, 0xffffffff]
    c = lambda l, m: r.choice(l + [r.randrange(m)])
    return [r.choice(TAGS), c(e16, 65536), c(e32, 1 << 32), c(e32, 1 << 32), c(e16, 65536), c(e16, 65536), r.choice([0, 0, 2, 22, 32, c(e16, 65536)])]


def wave_file(r, x):
    """the bytes of a file of the specification, its chunks with real sizes, and the formats in it"""
    b = b"WAVE"
    chunks, fmts = [], {}
    for k, c in enumerate(x["chunks"]):
        n = c["size"]
        if c["id"] == "fmt":
            w = wave(r)
            if n < 16 or n == 17:
                p = bytes(r.randrange(256) for _ in range(n))
            else:
                if n == 19:
                    n = r.choice([19, 21, 41])
                elif n == 18:
                    n = r.choice([18, 20, 40, 50])
                ext = bytes(r.randrange(256) for _ in range(max(0, n - 18)))
                w[6] = w[6] if n >= 18 else 0
                p = struct.pack("<HHIIHH", *w[:6]) + (struct.pack("<H", w[6]) + ext if n >= 18 else b"")
                fmts[k + 1] = w
            cid = b"fmt "
        else:
            if n > 1:
                n += r.choice([0, 0, 2, 20, 300, 5000 if r.random() < .1 else 44])
            p = bytes(r.randrange(256) for _ in range(n))
            if c["id"] == "other" and n > 12 and r.random() < .5:
                p = (b"data" + struct.pack("<I", 4) + b"fmt " + p)[:n]
            cid = b"data" if c["id"] == "data" else r.choice(OTHER)
        b += cid + struct.pack("<I", n) + p + (bytes([r.choice([0, 0, 0x41, 0xff])]) if n % 2 else b"")
        chunks.append({"id": c["id"], "size": n})
    size = len(b)
    if not x["honest"]:
        size = r.choice([0, 0xffffffff, size + 2, size + 40])
        if size in (len(b), len(b) - x["cut"]):
            size = 0
    b = b"RIFF" + struct.pack("<I", size) + b
    if x["cut"]:
        b = b[:max(12, len(b) - x["cut"])]
    return b, chunks, fmts


def spots(b, d):
    out, i = [], b.find(d)
    while i >= 0 and len(out) < 200:
        out.append(i)
        i = b.find(d, i + 1)
    return out


def walk(b):
    """(RIFF size, chunks) by the rules of RIFF; junk: something that is not a chunk"""
    if b[:4] != b"RIFF" or b[8:12] != b"WAVE":
        return 0, [], {}, True
    at, chunks, body, junk = 12, [], {}, False
    while at < len(b):
        if at + 8 > len(b):
            junk = True
            break
        cid, n = b[at:at + 4], struct.unpack("<I", b[at + 4:at + 8])[0]
        name = {b"fmt ": "fmt", b"data": "data"}.get(cid, "other")
        chunks.append({"id": name, "size": n})
        body.setdefault(name, b[at + 8:at + 8 + n])
        if n > len(b):
            junk = True
            break
        at += 8 + n + n % 2
    return struct.unpack("<I", b[4:8])[0], chunks, body, junk


def run(c):
    r = c.rng

    def mc(name, n, f=(), emit=False, cuts=(0,), fs=(15, 16, 17, 18, 19), sizes=(0, 1, 2), **kw):
        return c.tlc("WavMC", CFG.format(n=n, cuts=S(cuts), fs=S(fs), s=S(sizes), f=S(f), e="TRUE" if emit else "FALSE", v=S(VERSIONS)), name=name, expect_ok=not f, **kw)

    def flaw(f):
        out = mc("flaw-" + f, 3 if f in ("no-pad", "rest", "padded-data", "last-fmt") else 0, f=[f])
        if c.last["code"] != 12 and not any(x.get("flaw") for x in out):
            raise vp.ToolError(f"the specification does not notice the flaw {f}")
    c.parallel([lambda f=f: flaw(f) for f in ("no-pad", "rest", "padded-data", "last-fmt", "size-36", "no-pad-byte", "size-from-cb")])
    # honest, cut and the number of chunks bound the reader; every file is also given to the library
    big = mc("explore", c.n(4, 5), cuts=(0, 1, 3, 9), fs=(16, 18, 19), heap="10g")
    lay = [x for x in mc("files", 3, emit=True, cuts=(0, 1, 2, 9, 20)) if "chunks" in x]
    more = [x for x in mc("files4", 4, emit=True, cuts=(0,), fs=(16, 18), sizes=(1, 2)) if "chunks" in x and len(x["chunks"]) == 4]
    recs = {(x["version"], x["wav"]): x["record"] for x in big if "record" in x}
    key = lambda x: json.dumps(x, sort_keys=True)
    lay.sort(key=key)
    more.sort(key=key)
    good = [x for x in lay if [q["id"] for q in x["chunks"]].count("data") and x["cut"] < 9]
    r.shuffle(lay)
    r.shuffle(more)
    r.shuffle(good)
    files = good[:c.n(5000, 20000)] + lay[:c.n(2500, 30000)] + more[:c.n(1500, 8000)]
    cases, info = [], {}
    for x in files:
        b, chunks, fmts = wave_file(r, x)
        i = len(cases)
        cases.append({"id": i, "mode": "read", "hex": b.hex()})
        info[i] = (x, b, chunks, fmts)
    for _ in range(c.n(3000, 40000)):
        n = r.choice([0, 1, 2, 3, 37, 44, 45, 255, 256, 999, 70001 if r.random() < .03 else 36])
        d = bytes(r.randrange(256) for _ in range(n)) if n < 2000 or r.random() < .2 else os.urandom(0) + bytes(range(256)) * (n // 256) + b"\x07" * (n % 256)
        if n > 60 and r.random() < .3:
            d = (b"data\x08\0\0\0LIST\x04\0\0\0abcdRIFF" + d)[:n]
        i = len(cases)
        cases.append({"id": i, "mode": "write", "path": r.choice(["x.wav", "C:\\a\\x.WAV", "* Backglass Output *", "x", "a.b/x.Wav"]), "wave": wave(r), "data": d.hex()})
    tg = X.gen(c)
    for k in range(c.n(600, 8000)):
        v = r.choice(VERSIONS)
        sounds, want = [], []
        for j in range(r.choice([1, 1, 2, 5])):
            wav = r.random() < .6
            f = {"name": r.choice(["", "s", "Kl\u00e4ng", "x" * 300]) + str(j), "path": r.choice(["C:\\s\\a", "a", "/b/a"]) + (r.choice([".wav", ".WAV", ".wAv", ""]) if wav else r.choice([".ogg", ".mp3", ".OGG", ".wave", ".wa", ".flac"])),
                 "internal": r.choice(["", "s", "\u00fc"]), "wave": wave(r) if wav else None, "data": bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 44, 45, 333]))).hex(),
                 "target": r.randrange(2), "volume": r.choice([0, 100, 0xffffffff, 7]), "balance": r.choice([0, 50, 0xffffff9c]), "fade": r.choice([0, 3, 0xffffffff])}
            b = ""
            rec = recs[(v, wav)]
            for y in rec:
                if y in ("name", "path", "internal"):
                    t = f[y].encode("latin-1")
                    b += "0100000000" if y == "internal" and not t else st(t)
                elif y == "wave":
                    b += struct.pack("<HHIIHHH", *f["wave"]).hex()
                elif y == "data":
                    b += struct.pack("<I", len(f["data"]) // 2).hex() + f["data"]
                elif y == "target":
                    b += "%02x" % f["target"]
                else:
                    b += u32(f[y])
            for y in ("volume", "balance", "fade"):
                if y not in rec:
                    f[y] = 0
            sounds.append({"hex": b})
            want.append(f)
        t = tg.table(version=v, items=[], images=[], sounds=sounds, fonts=[], colls=[], opt=0, info={}, tags={}, code=b"")
        i = len(cases)
        cases.append({"id": i, "mode": "store", "streams": t["streams"]})
        info[i] = want
    res = c.harness("sound", cases)
    fn = os.path.join(c.dir, "traces.ndjson")
    shown = {}
    with open(fn, "w") as f:
        for x in res:
            case = cases[x["id"]]
            i = x["id"]
            if "panic" in x:
                c.violation(f"{case['mode']} aborts: {x['panic'][:80]}", {"panic": x["panic"], "case": str(case)[:1500]})
                continue
            if case["mode"] == "read":
                y, b, chunks, fmts = info[i]
                d = bytes.fromhex(x.get("data", ""))
                got = {"ok": x["ok"], "fmts": [k for k, w in fmts.items() if x["ok"] and w == x["wave"]], "len": len(d), "ats": spots(b, d) if d else []}
                o = {"id": i, "mode": "read", "chunks": chunks, "honest": y["honest"], "cut": y["cut"], "got": got}
                shown[i] = dict(o, hex=b.hex()[:400], error=x.get("error"))
            elif case["mode"] == "write":
                b = bytes.fromhex(x["hex"])
                riff, chunks, body, junk = walk(b)
                w = case["wave"]
                fm = body.get("fmt", b"")
                exact = fm[:16] == struct.pack("<HHIIHH", *w[:6])
                cb = struct.unpack("<H", fm[16:18])[0] if len(fm) >= 18 else 0
                again = ([] if x["ok"] else ["error"]) + (["data"] if x["data"] != case["data"] else []) + (["format"] if x["wave"] != w else [])
                big_ = 1 << 30
                o = {"id": i, "mode": "write", "s": {"tag": w[0], "cb": w[6], "n": len(case["data"]) // 2}, "junk": junk or riff > big_,
                     "w": {"riff": min(riff, big_), "file": len(b), "chunks": [dict(q, size=min(q["size"], big_)) for q in chunks]},
                     "sameData": body.get("data", b"?").hex() == case["data"], "sameFormat": exact and cb == w[6], "again": again}
                shown[i] = dict(o, wave=w, hex=x["hex"][:200], error=x.get("error"))
            else:
                if not x["ok"]:
                    c.violation("a table with sounds is refused", {"error": x["error"]})
                    continue
                fields = []
                for k, want in enumerate(info[i]):
                    g = x["sounds"][k]
                    fields += [q for q, v in want.items() if v is not None and g[q] != v]
                o = {"id": i, "mode": "store", "diff": x["diff"][:3], "fields": fields}
                o["diff"] = [str(q)[:200] for q in o["diff"]]
                shown[i] = dict(o, version=struct.unpack("<I", bytes.fromhex(case["streams"][0]["hex"]))[0], sounds=[str(q)[:300] for q in info[i]])
            f.write(json.dumps(o) + "\n")
    bad = c.tlc("WavTrace", "INIT Init\nNEXT Next\nCONSTANTS Flaws = {}\nCHECK_DEADLOCK FALSE\n", name="trace", env_extra={"VP_TRACES": fn}, workers=1, heap="8g")
    if c.last["generated"] < len(shown) + 1:
        raise vp.ToolError("trace validation did not judge every trace")
    os.remove(fn)
    c.traces += len(shown)
    for v in bad:
        s = shown[v["id"]]
        for why in v["why"]:
            if s["mode"] == "store" and "field" in why:
                why += " (" + ", ".join(sorted(set(s["fields"]))) + ")"
            if "same after" in why:
                why += " (" + ", ".join(s["again"]) + ")"
            c.violation(why, s)
    c.notes["files_read"] = len(files)
    c.notes["versions"] = VERSIONS
    c.sample(files[0])
    c.sample(shown.get(len(files)))
    c.assumptions += ["the two stored volumes of a sound are equal", "sizes below 4 GB", "a data size of 0 in a file with a wrong RIFF size, or of 2^32-1, means up to the end of the file",
                      "files whose RIFF size is that of earlier releases of vpin (fmt of 18 bytes counted as 16, not PCM, cbSize 0) are read as those releases wrote them"]

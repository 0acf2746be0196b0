"""Meshes for the checks P20 and P25: from the names of Mesh.tla to bits, and the traces judged by MeshTrace.tla."""
import json, math, os, struct
from lib import vp

CFG = ("INIT Init\nNEXT Next\nCONSTANTS Flaws = {flaws} Family = \"{fam}\" Special = {sp} MaxFrames = {fr} MaxFaces = {faces} MaxCorners = {co} Count = {n} Emit = {emit}\n"
       "INVARIANTS RoundRight ForeignRight WidthsRight Report\nCHECK_DEADLOCK FALSE\n")


def model(c, name, fam="round", flaw=(), sp=0, fr=0, faces=0, co=3, n=2, emit=(), **kw):
    S = lambda xs: "{" + ",".join(f'"{x}"' for x in xs) + "}"
    out = c.tlc("MeshMC", CFG.format(flaws=S(flaw), fam=fam, sp=sp, fr=fr, faces=faces, co=co, n=n, emit=S(emit)), name=name, expect_ok=not flaw, **kw)
    if flaw and c.last["code"] != 12:
        raise vp.ToolError(f"the specification does not notice the flaw {flaw}")
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def f32(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def bits(r, name):
    """32 bits of the kind Mesh.tla names"""
    neg = name.startswith("-")
    k = name.lstrip("-")
    if k == "0":
        b = 0
    elif k == "a":
        b = f32(r.choice([r.uniform(0.51, 2000), r.uniform(0, 1e-3), 10 ** r.uniform(-30, 30), r.randrange(1, 5000), r.randrange(1, 5000) / 4]))
    elif k == "third":
        b = f32(r.choice([1 / 3, 0.1, r.uniform(1e-6, 0.5), r.uniform(1e-9, 1e-3), r.uniform(2, 1000) + 1 / 3]))
    elif k == "tiny":
        b = f32(r.uniform(1, 2) * 2.0 ** -r.choice([31, 32, 40, 54, 60, 100, 126]))
    elif k == "sub":
        b = r.choice([1, 0x7fffff, r.randrange(1, 1 << 23)])
    elif k == "inf":
        b = 0x7f800000
    elif k == "amb":
        b = 0x15ae43fd      # the one number whose shortest decimal text narrows from 64 bits to another number
    elif k == "nan":
        b = 0x7f800000 | r.randrange(1, 1 << 22)
    elif k == "qnan":
        b = 0x7fc00000
    else:
        b = 0x7fc00000 | r.randrange(1, 1 << 22)
    return b | (0x80000000 if neg else 0)


SPECIAL = [0, 1, 0x7fffff, 0x800000, 0x15ae43fd, 0x3effffff, 0x3f000000, 0x3f000001, 0x3f7fffff, 0x3f800000, 0x3f800001, 0x3fffffff,
           0x40000000, 0x40000001, 0x30800000, 0x307fffff, 0x2f800000, 0x33000000, 0x337fffff, 0x4b000000, 0x4b800000, 0x7f7fffff, 0x7f800000,
           0x7fc00000, 0x7f800001, 0x7fffffff, 0x3eaaaaab, 0x3dcccccd]


def anything(r):
    k = r.random()
    if k < .4:
        return f32(r.uniform(-1000, 1000))
    if k < .6:
        return f32(r.uniform(0, 1))
    if k < .8:
        return r.choice(SPECIAL) | r.choice([0, 0x80000000])
    return r.randrange(1 << 32)


def pack(xs):
    return struct.pack("<%dI" % len(xs), *xs)


def words(h):
    """the 32 bit numbers of a hex text, as texts"""
    b = bytes.fromhex(h)
    return ["%08x" % x for x in struct.unpack("<%dI" % (len(b) // 4), b[:len(b) // 4 * 4])]


def rows(ws, n):
    return [ws[i:i + n] for i in range(0, len(ws), n)]


def ints(h, w):
    b = bytes.fromhex(h)
    return list(struct.unpack("<%d%s" % (len(b) // w, "I" if w == 4 else "H"), b[:len(b) // w * w]))


def whole(x):
    """a stored number as a whole number (a far one for anything else)"""
    f = struct.unpack("<f", struct.pack("<I", int(x, 16)))[0]
    return int(f) if math.isfinite(f) and f == int(f) and abs(f) < 1e6 else 99999999


def judge(c, traces, name="trace", parts=7):
    """MeshTrace.tla's verdicts by id"""
    fns = []
    for p in range(parts):
        fn = os.path.join(c.dir, f"{name}{p}.ndjson")
        chunk = traces[p::parts]
        if chunk:
            with open(fn, "w") as f:
                for t in chunk:
                    f.write(json.dumps(t) + "\n")
            fns.append((fn, len(chunk), f"{name}{p}"))

    def one(fn, n, nm):
        o = c.tlc("MeshTrace", "INIT Init\nNEXT Next\nCONSTANTS Flaws = {}\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n",
                  name=nm, env_extra={"VP_TRACES": fn}, workers=1, heap="4g")
        if c.last["generated"] < n + 1:
            raise vp.ToolError("trace validation did not judge every trace")
        os.remove(fn)
        return o
    c.traces += len(traces)
    return {x["id"]: x["why"] for o in c.parallel([lambda a=a: one(*a) for a in fns], 7) for x in o}


def round_trace(d, x):
    """the trace of a mesh that was extracted and read back"""
    n = len(d["v"]) // 64
    w = 4 if n > 65535 else 2
    m = len(d["f"]) // 2 // w
    ok = x["write"] == "ok" and x.get("read") == "ok"
    t = {"id": x["id"], "kind": "round", "write": x["write"][:5] if x["write"] != "ok" else "ok", "read": x.get("read", "no")[:3] if x.get("read") != "ok" else "ok",
         "n": n, "m": m, "nv": x.get("nv", -1), "nf": x.get("nf", -1), "vlen": x.get("vlen", -1), "flen": x.get("flen", -1), "lens": x.get("lens") == [True, True] and x.get("flens") is True,
         "usable": "yes" if x.get("usable") == f"{n} {m // 3}" else "no", "big": d["big"], "vsame": x.get("v_same", False), "fsame": x.get("f_same", False), "frsame": x.get("fr_same", False)}
    if ok and not d["big"]:
        V = lambda h: rows(words(h), 8)
        F = lambda h: rows(words(h), 6)
        t.update(v=V(d["v"]), v2=V(x["v"]), f=ints(d["f"], w), f2=ints(x["f"], w), fr=[F(h) for h in d["frames"]], fr2=[F(h) for h in x["frames"]])
        every = {q for fr in t["fr"] + t["fr2"] for row in fr for q in row}
        t["nan"] = sorted(q for q in every if int(q, 16) & 0x7fffffff > 0x7f800000)
        t["zero"] = sorted(q for q in every if int(q, 16) & 0x7fffffff == 0)
    else:
        t.update(v=[], v2=[], f=[], f2=[], fr=[], fr2=[], nan=[], zero=[])
    return t

"""Tables for the extraction checks (P11-P15), from Expand.tla's part lists and at random, and their judgement by ExpandTrace.tla."""
import json, os, re, shutil, tempfile
from lib import vp
from lib.tabgen import TableGen

CFG = ("INIT Init\nNEXT Next\nVIEW View\nCONSTANTS Family = \"{fam}\" MaxLen = {n} Workers = {w} MaxFault = {f} MaxDamage = {d} Flaws = {fl} Emit = \"{e}\"\n"
       "INVARIANTS OwnFile Inside Honest RoundTrip SameFiles Refused NothingElse NoFalseAlarm\nCHECK_DEADLOCK FALSE\n")


def model(c, fam, n=0, w=1, f=0, d=0, emit="", flaw=None, timeout=600, heap="6g"):
    name = f"{fam}-{n}-{w}{f}{d}{emit}" if not flaw else "flaw-" + "-".join(flaw)
    fl = "{%s}" % ",".join('"%s"' % x for x in flaw or ())
    out = c.tlc("ExpandMC", CFG.format(fam=fam, n=n, w=w, f=f, d=d, fl=fl, e=emit), name=name, expect_ok=not flaw, timeout=timeout, heap=heap)
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    if flaw and c.last["code"] != 12:
        raise vp.ToolError(f"the specification does not notice the flaw {flaw}")
    return out


def flaws(c, *specs, extra=()):
    """every flaw must be noticed; (family, length, workers, faults, damage, flaw...)"""
    c.parallel([lambda s=s: model(c, s[0], s[1], s[2], s[3], s[4], flaw=list(s[5:])) for s in specs] + list(extra))


LETTERS = [("A", "a"), ("\u00c9", "\u00e9"), ("Bumper", "bumper"), ("\u00d8", "\u00f8")]


def same_text(rng, lists):
    """the parts of one list share the letters they use"""
    up, lo = rng.choice(LETTERS)
    m = {"A": up, "a": lo, "DEDUP": "Dedup", "ANIM": "Anim", "/": rng.choice("/\\"), "?": rng.choice("?*<>|\""), " ": rng.choice(" +%'&")}
    return ["".join(m.get(t, t) for t in p["name"]) for p in lists]


class Tg(TableGen):
    """primitives always have stored meshes that can be read"""
    def item(self, kind=None, name=None, opt=None):
        kind = kind or self.r.choice(self.kinds)
        return self.primitive(name, opt=opt) if kind == "Primitive" and not self.inner else super().item(kind, name, opt)

    inner = False

    def primitive(self, *a, **k):
        self.inner = True
        try:
            return super().primitive(*a, **k)
        finally:
            self.inner = False


def gen(c):
    tg = Tg(c.rng, finite=True, safe_text=True)
    tg.g.scale = True
    return tg


def of_list(tg, ps, version, small=True):
    r = tg.r
    names = same_text(r, ps)
    items, images, sounds, fonts = [], [], [], []
    kw = dict(nv=3, nf=1, opt=0) if small else {}
    for p, nm in zip(ps, names):
        ext = "".join(p["ext"])
        if p["kind"] == "prim":
            items.append(tg.primitive(nm, frames=p["frames"], **kw))
        elif p["kind"] == "wall":
            items.append(tg.item("Wall", name=nm, opt=0 if small else None))
        elif p["kind"] in ("img", "link"):
            k = "link" if p["kind"] == "link" else "bmp" if ext.lower() == "bmp" else "raw" if small else "png"
            images.append(tg.image(nm, kind=k, path="C:\\t\\x." + ext))
        elif p["kind"] == "snd":
            sounds.append(tg.sound(version, nm, path="x." + ("wav" if ext in ("png", "PNG") else ext)))
        else:
            fonts.append(tg.font(nm, path="x." + ("ttf" if ext in ("png", "PNG") else ext)))
    extra = dict(info={"TableName": "T"}, tags={}, code=b"'") if small else {}
    return tg.table(version=version, items=items, images=images, sounds=sounds, fonts=fonts, colls=[], opt=0 if small else None, **extra)


NASTY = ["", ".", "..", "../x", "../../../../../../tmp/vpx-out", "/etc/vpx-out", "C:\\x", "con", "CON", "Con", "nul", "NUL.txt", "A.", "A..", "A ", " A", "a", "A",
         "A_dedup1", "a_DEDUP1", "A_dedup2", "\u00e9", "\u00c9", "e\u0301", "x" * 95, "X" * 95, "A:b", "A/b", "A\\b", "A_b", "json", "A_anim_0", "A_anim_1", "A_anim_",
         "A_Anim_0", "A.json", "A.obj", "A.JSON", "unnamed", "Unnamed", "A__1", "a__1", "A__2", "A__1__1", "..\\..\\x", "a\tb", "a\x01b", "ab", "\u0130", "i\u0307", "\u00df", "SS", "ss",
         "A-generated", "_", "__1", "_dedup1", "%2e%2e", "~", "$x", "a\\", "a\nb", "a\rv 1", "#x", " ", "\n", "A#", "A\u00a0"]
EXTS = ["png", "PNG", "jpg", "webp", "", "a/b", "..", "x\\y", "tar.gz", "p:g", "json"]


def nasty(tg, wide=True):
    r = tg.r
    n = r.choice(NASTY)
    if r.random() < 0.15:
        n += r.choice(NASTY)[:30]
    if not wide:
        n = n.encode("latin-1", "ignore").decode("latin-1")
    return n[:100]


def of_random(tg, version=None, names=None, small=False):
    """names: None = ordinary names, else the probability of a difficult one"""
    r = tg.r
    version = version or r.choice([1000, 1030, 1031, 1060, 1072, 1080, 1081, 1082])
    nm = lambda wide=True: nasty(tg, wide) if names and r.random() < names else None
    cnt = lambda: r.choice([0, 1, 2, 4] if names is None else [0, 2, 3, 5, 8])
    kw = dict(nv=3, nf=1, frames=r.choice([0, 0, 1, 2]), opt=0) if small else {}
    items = []
    for _ in range(cnt()):
        k = r.choice(tg.kinds + ["Primitive"] * 6)
        items.append(tg.primitive(nm(), mesh=r.random() < .8, **kw) if k == "Primitive" else tg.item(k, nm(), opt=0 if small else None))
    path = lambda d: r.choice(["C:\\t\\x.", "/a.b/", "x.", "", "..\\", "../.."]) + r.choice(EXTS) if names and r.random() < 0.3 else None
    # (a bitmap must have the extension bmp)
    images = []
    for _ in range(cnt()):
        k = r.choice(["png", "bmp", "raw", "raw", "link"])
        images.append(tg.image(nm(False), kind=k, path=path(0) if k not in ("bmp", "link") else None))
    sounds = [tg.sound(version, nm(False), path=r.choice(["C:\\t\\x.", "x.", "..\\", "a.b\\c."]) + r.choice(["wav", "ogg", "WAV", "p:g"]) if names else None) for _ in range(cnt())]
    fonts = [tg.font(nm(False), path=path(0)) for _ in range(cnt())]
    kw = {}
    if small:
        kw = dict(info={"TableName": "T"}, tags={}, code=b"'", opt=0, colls=[])
    return tg.table(version=version, items=items, images=images, sounds=sounds, fonts=fonts, **kw)


def owner(path, gi):
    stem = path.rsplit(".", 1)[0]
    best = -1
    for i, f in enumerate(gi):
        s = f[:-5] if f.endswith(".json") else f
        if stem == s or re.fullmatch(re.escape(s) + r"_anim_\d+", stem):
            best = i
    return best


def storage(d):
    return d + [d[0].split("/")[0] if "/" in d[0] else ""]


def judge(c, cases, name, timeout=850, heap="8g"):
    """Runs the cases on the library and has ExpandTrace.tla judge what was recorded."""
    work = tempfile.mkdtemp(prefix="vpxe-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else c.dir)
    try:
        res = c.harness("expand", cases, name=name, args=[work], timeout=timeout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    by = {x["id"]: x for x in cases}
    fn = os.path.join(c.dir, name + ".traces.ndjson")
    runs = {}
    with open(fn, "w") as f:
        for r in res:
            case = by[r["id"]]
            m = case["mode"]
            if "harness" in r:
                raise vp.ToolError(f"case {r['id']}: {r['harness']}")
            o = {"id": r["id"], "mode": m, "write": r["write"][:200], "read": r.get("read", "no")[:200]}
            if m == "names":
                o.update(root=r["root"], log=r["log"])
            elif m == "round":
                o["diff"] = [[str(x)[:80] for x in d] for d in r.get("diff", [])][:20]
                o["real"] = "yes" if "rwrite" in r else "no"
                for k in ("rwrite", "rread"):
                    o[k] = r.get(k, "no")[:200]
                o["rdiff"] = [[str(x)[:80] for x in d] for d in r.get("rdiff", [])][:20]
                o["tree"] = r.get("tree", [])[:20]
            elif m == "fault":
                o["runs"] = [{"dir": x["dir"], "res": x["res"], "failed": x["failed"], "whole": x["whole"][:3]} for x in r.get("runs", [])]
                runs[r["id"]] = r.get("runs", [])
            elif m == "sched":
                o["runs"] = [{"dir": x["dir"], "res": x["res"], "diff": x["diff"][:3], "log": x["log"]} for x in r.get("runs", [])]
                runs[r["id"]] = r.get("runs", [])
            elif m == "damage":
                o["runs"] = []
                for x in r.get("runs", []):
                    p = x["path"]
                    fnm = p[-1]
                    o["runs"].append({"dir": "/".join(p[:-1]), "name": fnm, "ext": fnm.rsplit(".", 1)[1].lower() if "." in fnm else "", "how": x["how"], "res": x["res"],
                                      "diff": [storage(d) for d in x["diff"]], "owner": owner(fnm, r.get("items", [])) if p[0] == "gameitems" else -1})
                o["truns"] = []
                for x in r.get("truns", []):
                    p = x["path"]
                    o["truns"].append({"stg": p[0] if len(p) > 1 else "", "kind": re.sub(r"\d+$", "", p[-1]) if len(p) > 1 else p[0], "how": x["how"], "res": x["res"],
                                       "diff": [storage(d) for d in x["diff"]]})
                runs[r["id"]] = r.get("runs", []) + r.get("truns", [])
            f.write(json.dumps(o) + "\n")
    bad = c.tlc("ExpandTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", name="trace-" + name, env_extra={"VP_TRACES": fn}, workers=1, heap=heap, timeout=timeout)
    if c.last["generated"] < len(res) + 1:
        raise vp.ToolError("trace validation did not replay every trace")
    os.remove(fn)
    rb = {r["id"]: r for r in res}
    for r in res:
        c.traces += 1
        c.evals += 1 + len(runs.get(r["id"], []))
    for v in bad:
        r, case = rb[v["id"]], by[v["id"]]
        x = runs[v["id"]][v["at"] - 1] if v["at"] else {k: str(r.get(k))[:1500] for k in ("write", "read", "diff", "rwrite", "rread", "rdiff", "tree") if k in r}
        if v["at"] == 0 and case["mode"] == "names":
            x["created"] = [e[1] for e in r["log"] if e[0] in ("create", "write_file")][:60]
        for why in v["why"]:
            c.violation(classify(why, case, r, x, v["at"]), {"mode": case["mode"], "fmt": case["fmt"], "derived": case["derived"], "case": v["id"], "run": str(x)[:2000],
                                                             "table": case.get("about"), "seed": c.seed})
    return res


def classify(why, case, r, x, at):
    if case["mode"] == "damage" and at:
        p = "/".join(x["path"])
        p = re.sub(r"\d+", "N", p)
        ext = p.rsplit(".", 1)[-1] if "." in p else p
        return f"{why}: {p.split('/')[0] + '/*.' + ext if '/' in p and '.' in p else p} {x['how']}"
    if case["mode"] == "fault" and at:
        return f"{why}: {x['op']}"
    if case["mode"] == "round":
        for k in ("write", "read", "rwrite", "rread"):
            if why.endswith("fails") and r.get(k, "ok") != "ok":
                return f"{why}: " + re.sub(r"\d+", "N", re.sub(r"['\"`].*", "", r[k]))[:70]
        d = (r.get("diff") or r.get("rdiff") or [])
        if d and "changes" in why:
            return f"{why}: {re.sub(chr(92) + 'd+', 'N', str(d[0][0]))} {' '.join(str(q) for q in d[0][1:2 if str(d[0][1]).startswith('value') else 3])[:60]}"
    return why

"""Whole tables as lists of compound-file streams, built without the library."""
import json, struct, zlib
from lib.recgen import Gen, schema, u32, f32, st, wst

VERSIONS = [900, 1000, 1030, 1031, 1050, 1060, 1070, 1072, 1074, 1080, 1080, 1080, 1081, 1082]
MEMBERS = [[], ["a"], ["a", "b"], ["b", "a"], ["a", "a"], ["a", "b", "a"], [""], ["A", "a"], ["x y ", " x"], ["\u4e2d", "", ""]]
INFO = ["TableName", "AuthorName", "TableBlurb", "TableRules", "AuthorEmail", "ReleaseDate", "TableSaveRev",
        "TableVersion", "AuthorWebSite", "TableSaveDate", "TableDescription"]


def lzw(data, width_cap=12):
    """GIF-style LZW, 8 bit literals, LSB first, framed in blocks of 254 bytes."""
    out, acc, nb = bytearray(), 0, 0

    def put(code, w):
        nonlocal acc, nb
        acc |= code << nb
        nb += w
        while nb >= 8:
            out.append(acc & 255)
            acc >>= 8
            nb -= 8
    table = {bytes([i]): i for i in range(256)}
    nxt, w = 258, 9
    put(256, 9)
    cur = b""
    for b in data:
        n = cur + bytes([b])
        if n in table:
            cur = n
            continue
        put(table[cur], w)
        if nxt < 4096:
            table[n] = nxt
            if nxt == (1 << w) and w < 12:
                w += 1
            nxt += 1
        else:
            put(256, w)
            table = {bytes([i]): i for i in range(256)}
            nxt, w = 258, 9
        cur = bytes([b])
    if cur:
        put(table[cur], w)
        if nxt == (1 << w) and w < 12:
            w += 1
    put(257, w)
    if nb:
        out.append(acc & 255)
    return blocks(bytes(out))


def blocks(b, n=254):
    return b"".join(bytes([len(b[i:i + n])]) + b[i:i + n] for i in range(0, len(b), n))


def png(w, h, px):
    """RGBA8 png"""
    raw = b"".join(b"\0" + px[y * w * 4:(y + 1) * w * 4] for y in range(h))

    def ch(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0)) + ch(b"IDAT", zlib.compress(raw)) + ch(b"IEND", b"")


def rec(t, p, **x):
    return dict({"t": t, "p": p, "x": ""}, **x)


class TableGen:
    def __init__(self, rng, finite=False, safe_text=False):
        self.r = rng
        self.g = Gen(rng, finite=finite, safe_text=safe_text)
        self.S = schema("ItemSchema.json")
        self.GS = schema("GameDataSchema.json")
        self.kinds = [k for k in self.S if k != "DragPoint"]

    def words(self):
        r = self.r
        return r.choice(["", "a", "My Table", "\u00e9t\u00e9 2024", "\u4e2d\u6587", "x" * 40, "line1\r\nline2", "1.2.3", " lead", "trail ", "  ", "\n", "line1\nline2\n", "\ufeffx", "\U0001F600", "tab\t\"q\"\\", "0", "null", "\u00a0"])

    def item(self, kind=None, name=None, opt=None):
        kind = kind or self.r.choice(self.kinds)
        s = self.S[kind]
        recs = self.g.full(s["f"], self.S, opt=self.r.choice([0, 0.5, 1]) if opt is None else opt, maxlist=2)
        if name is not None:
            for r in recs:
                if r["t"] == "NAME" and "s" not in r:
                    r["p"] = wst(name)
        return {"type": s["id"], "recs": recs, "kind": kind}

    M3 = ("M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI", "M3AY", "M3AX")

    def mesh(self, nv=None, nf=None, frames=None, num=None):
        """stored mesh records: vertices, faces and animation frames that belong together"""
        r = self.r
        nv = nv if nv is not None else r.choice([1, 3, 4, 7, 30])
        nf = nf if nf is not None else r.choice([1, 2, 5, 12])
        frames = frames if frames is not None else r.choice([0, 0, 0, 1, 2, 3, 11])
        num = num or (lambda: struct.unpack("<f", bytes.fromhex(self.g.f32()))[0] if r.random() < 0.5 else r.uniform(-500, 500))
        uniq = [struct.pack("<8f", *(num() for _ in range(8))) for _ in range(min(nv, 64))]
        v = b"".join(uniq[i % len(uniq)] for i in range(nv)) if nv > 64 else b"".join(uniq)
        w = "<I" if nv > 65535 else "<H"
        f = b"".join(struct.pack(w, r.randrange(nv)) for _ in range(nf * 3))
        if nv > 1000:   # touch the ends of the index range
            f = b"".join(struct.pack(w, x) for x in (nv - 1, 0, nv // 2)) + f[struct.calcsize(w) * 3:]
        z = lambda b: zlib.compress(b, r.choice([0, 1, 6, 9]))
        cv, cf = z(v), z(f)
        recs = [rec("M3VN", u32(nv)), rec("M3CY", u32(len(cv))), rec("M3CX", cv.hex()), rec("M3FN", u32(nf * 3)),
                rec("M3CJ", u32(len(cf))), rec("M3CI", cf.hex())]
        fr = []
        for _ in range(frames):
            a = b"".join(struct.pack("<6f", *(num() for _ in range(6))) for _ in range(nv))
            ca = z(a)
            fr.append(a)
            recs += [rec("M3AY", u32(len(ca))), rec("M3AX", ca.hex())]
        return recs, (v, f, fr, nv)

    def primitive(self, name=None, mesh=True, opt=None, **kw):
        it = self.item("Primitive", name, opt)
        out, done = [], False
        m, raw = self.mesh(**kw) if mesh else ([], None)
        for x in it["recs"]:
            if x["t"] == "PIDB" and not done:
                out += m
                done = True
            if x["t"] not in self.M3:
                out.append(x)
        it["recs"] = out
        it["mesh"] = raw
        return it

    def image(self, name=None, kind=None, path=None):
        """kind: png | jpg | bmp | link | raw"""
        r = self.r
        name = name if name is not None else r.choice(["img", "Bild \u00e4", "tex_1", "", "A"]) + str(r.randrange(10000))
        kind = kind or r.choice(["png", "bmp", "raw", "raw", "link"])
        w, h = r.choice([(1, 1), (2, 3), (5, 4), (16, 9), (33, 17)])
        px = bytes(r.randrange(256) for _ in range(w * h * 4)) if r.random() < 0.6 else bytes(r.choice([0, 255]) for _ in range(4)) * (w * h)
        if r.random() < 0.5:
            px = b"".join(px[i:i + 3] + b"\xff" for i in range(0, len(px), 4))
        ext = {"png": "png", "bmp": "bmp", "link": r.choice(["png", "bmp"])}.get(kind) or r.choice(["jpg", "webp", "hdr", "JPG", "jpeg", "tga"])
        path = path if path is not None else r.choice(["C:\\t\\", "/x/y.z/", ""]) + (name or "n") + "." + (ext.upper() if r.random() < 0.15 else ext)
        L = lambda s: st(s.encode("latin-1", "replace"))
        recs = [rec("NAME", L(name))]
        if r.random() < 0.3:
            recs.append(rec("INME", L(name.lower())))
        recs.append(rec("PATH", L(path)))
        recs += [rec("WDTH", u32(w)), rec("HGHT", u32(h))]
        if kind == "link":
            recs.append(rec("LINK", u32(1)))
        elif kind == "bmp":
            recs.append(rec("BITS", lzw(px).hex(), k="nosize"))
        else:
            data = png(w, h, px) if kind == "png" else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 10, 300])))
            if kind == "png" and r.random() < 0.1:
                data = data[:20]    # damaged picture data is still data
            s = [rec("NAME", L(name))]
            if r.random() < 0.3:
                s.append(rec("INME", L(name.lower())))
            s += [rec("PATH", L(path)), rec("SIZE", u32(len(data))), rec("DATA", data.hex())]
            recs.append({"t": "JPEG", "k": "sub", "s": s})
        recs.append(rec("ALTV", self.g.f32()))
        if r.random() < 0.3:
            recs.append(rec("MD5H", bytes(r.randrange(256) for _ in range(16)).hex()))
        if r.random() < 0.5:
            recs.append(rec("OPAQ", u32(r.randrange(2))))
        if r.random() < 0.5:
            recs.append(rec("SIGN", u32(r.randrange(2))))
        return {"recs": recs, "kind": kind, "name": name, "px": px.hex(), "w": w, "h": h}

    def sound(self, version, name=None, path=None, pcm=True):
        r = self.r
        name = name if name is not None else r.choice(["snd", "Kl\u00e4ng", "", "S"]) + str(r.randrange(10000))
        path = path if path is not None else r.choice(["C:\\s\\", "", "/a.b/"]) + (name or "n") + r.choice([".wav", ".wav", ".WAV", ".ogg", ".mp3", ""])
        base = path.replace("\\", "/").split("/")[-1] if False else path.split("/")[-1]
        ext = base[base.rindex(".") + 1:] if "." in base[1:] else ""
        L = lambda s: st(s.encode("latin-1", "replace"))
        b = L(name) + L(path)
        inner = r.choice(["", name.lower()])
        b += "0100000000" if inner == "" else L(inner)
        n = r.choice([0, 1, 2, 4, 44, 45, 333])
        data = bytes(r.randrange(256) for _ in range(n))
        wave = ext == "" or ext.lower() == "wav"
        if wave:
            ch, sps, bps = r.choice([1, 2, 6]), r.choice([8000, 22050, 44100, 96000]), r.choice([8, 16, 24, 32])
            b += struct.pack("<HHIIHHH", 1, ch, sps, sps * ch * bps // 8, ch * bps // 8, bps, 0).hex()
        b += struct.pack("<I", n).hex() + data.hex() + "%02x" % r.randrange(2)
        if version >= 1031:
            v = u32(r.choice([0, 100, 0xffffffff, 7]))
            b += v + u32(r.choice([0, 50, 0xffffff9c])) + u32(r.choice([0, 3, 0xffffffff])) + v
        return {"hex": b, "name": name, "wave": wave, "n": n}

    def font(self, name=None, path=None):
        r = self.r
        name = name if name is not None else r.choice(["font", "Schrift \u00e4"]) + str(r.randrange(10000))
        path = path if path is not None else "C:\\f\\" + name + r.choice([".ttf", ".otf", ".TTF"])
        L = lambda s: st(s.encode("latin-1", "replace"))
        d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 200])))
        return {"recs": [rec("NAME", L(name)), rec("PATH", L(path)), rec("SIZE", u32(len(d))), rec("DATA", d.hex())], "name": name}

    def collection(self, name=None, items=()):
        r = self.r
        name = name if name is not None else r.choice(["Coll", "Gr\u00fcppe", ""]) + str(r.randrange(100))
        return {"recs": [rec("NAME", wst(name))] + [rec("ITEM", wst(i)) for i in items] +
                [rec(t, u32(r.randrange(2))) for t in ("EVNT", "SSNG", "GREL")], "name": name}

    def script(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            return "".encode()
        if x < 0.5:
            return "Option Explicit\r\n' caf\u00e9 \u4e2d\u6587 \ufeff\r\nSub Table1_Init\r\nEnd Sub".encode("utf-8") + b"'" * r.choice([0, 1, 5000])
        if x < 0.75:
            return "' Latin caf\u00e9 \u00ff\u00a0\u00fc\r\n".encode("latin-1")
        return bytes(r.choice(b"abc \r\n\t'") for _ in range(r.choice([1, 3, 4095, 4096, 70])))

    def settings(self, counts, code=None, lock=None, opt=None):
        """lock: None = absent, else the counter"""
        r = self.r
        recs = self.g.full(self.GS["GameData"]["f"], self.GS, opt=r.choice([0, 0.5, 1]) if opt is None else opt, maxlist=2)
        recs = [x for x in recs if x["t"] not in ("TLCK",)]
        for x in recs:
            if x["t"] in counts:
                x["p"] = u32(counts[x["t"]])
            if x["t"] == "CODE":
                c = self.script() if code is None else code
                x["p"] = u32(len(c)) + c.hex()
        if lock is not None:
            recs.append(rec("TLCK", u32(lock)))
        return recs

    def table(self, version=None, items=None, images=None, sounds=None, fonts=None, colls=None, info=None, tags=None, code=None,
              lock=None, extra=False, screenshot=None, opt=None):
        r = self.r
        version = version if version is not None else r.choice(VERSIONS)
        n = lambda: r.choice([0, 0, 1, 2, 3])
        items = items if items is not None else [self.item() for _ in range(n())]
        images = images if images is not None else [self.image() for _ in range(n())]
        sounds = sounds if sounds is not None else [self.sound(version) for _ in range(n())]
        fonts = fonts if fonts is not None else [self.font() for _ in range(n())]
        colls = colls if colls is not None else [self.collection(items=r.choice(MEMBERS)) for _ in range(n() if r.random() < 0.95 else r.choice([10, 11, 13]))]
        info = info if info is not None else {k: self.words() for k in INFO if r.random() < r.choice([0.2, 0.9])}
        vary = tags is None
        tags = tags if tags is not None else {k: self.words() for k in ["Rules2", "Credits \u00e4", "x"] if r.random() < 0.4}
        if vary and r.random() < 0.04:
            tags = {f"{r.choice(['Tag', 'Etikett', 'A longer name for a tag'])} {k}": self.words() for k in range(r.choice([30, 90, 150]))}
        s = [{"path": "GameStg/Version", "hex": struct.pack("<I", version).hex()}]
        for k, v in info.items():
            s.append({"path": "TableInfo/" + k, "hex": v.encode("utf-16-le").hex()})
        if screenshot if screenshot is not None else r.random() < 0.3:
            s.append({"path": "TableInfo/Screenshot", "hex": bytes(r.randrange(256) for _ in range(r.choice([1, 50]))).hex()})
        # the order of the tags: as they come, another order, a tag twice, a tag without a value, a value without a tag
        order = list(tags)
        x = r.random() if order and vary else 1
        if x < 0.1:
            r.shuffle(order)
        elif x < 0.18:
            order.insert(r.choice([0, len(order)]), order[0])
        elif x < 0.22:
            order.append("NoValue")
        elif x < 0.26:
            order.pop()
        s.append({"path": "GameStg/CustomInfoTags", "recs": [rec("CUST", st(k.encode("latin-1"))) for k in order]})
        for k, v in tags.items():
            s.append({"path": "TableInfo/" + k, "hex": v.encode("utf-16-le").hex()})
        counts = {"SEDT": len(items), "SSND": len(sounds), "SIMG": len(images), "SFNT": len(fonts), "SCOL": len(colls)}
        s.append({"path": "GameStg/GameData", "recs": self.settings(counts, code, lock, opt)})
        for nm, l in (("GameItem", items), ("Image", images), ("Sound", sounds), ("Font", fonts), ("Collection", colls)):
            for i, x in enumerate(l):
                e = {"path": f"GameStg/{nm}{i}"}
                e.update({k: v for k, v in x.items() if k in ("recs", "hex", "type")})
                s.append(e)
        if extra:
            s.append({"path": "GameStg/Extra", "hex": "0102030405"})
            s.append({"path": "Other/Thing", "hex": "aa" * r.choice([1, 5000])})
        return {"streams": s, "version": version, "clsid": bool(extra)}

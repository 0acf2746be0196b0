"""Concrete stored records for abstract reading histories (values per kind, templates, random histories)."""
import json, os, struct

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def u32(x):
    return struct.pack("<I", x & 0xFFFFFFFF).hex()


def f32(x):
    return struct.pack("<f", x).hex()


def st(b):
    return struct.pack("<I", len(b)).hex() + b.hex()


def wst(s):
    return st(s.encode("utf-16-le"))


F32 = [f32(x) for x in (0.0, 1.0, -1.0, 1.5, 0.1, -0.1, 90.0, 1e-30, 3.4e38, 50.0, 123456.789, 16777217.0, 255.0, 0.5)] + \
      ["00000080", "0000807f", "000080ff", "0000c07f", "0100c07f", "0000c0ff", "ffffff7f", "01000000", "ffff7f7f"]
U32 = [u32(x) for x in (0, 1, 2, 3, 4, 5, 7, 8, 10, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x12345678)]
LATIN = bytes(range(1, 256))
WORDS = ["", "a", "Wall1", "Pla\u00efne", "x y", "\u00e9t\u00e9", "\u4e2d\u6587", "\U0001F600", "a/b\\c:d*e?", " lead", "trail ", "UPPER", "upper", "0", "-1", "\"q\"", "tab\there", "nl\nx", "\u0130\u0131", "\uffff\ufffd",
         "one\r\ntwo\r\n", "cr\rx", "\n", "\r\n", "   ", "\ufeffbom", "<b>&amp;</b>", "%s {0}", "true", "null", "1.50", "a,b;c", "it's", "e\u0301", "\t", ".", "\\", "A  B", "x.", "\u00a0", "a" + "\u4e2d" * 60]


class Gen:
    def __init__(self, rng, finite=False, safe_text=False):
        self.r = rng
        self.last = None
        self.finite = finite       # no NaN/infinite numbers
        self.safe_text = safe_text
        self.scale = False         # numbers of a size found in real tables
        self.deco = 0.1            # share of unknown / over-long records inside nested objects

    def f32(self):
        r = self.r
        x = r.random()
        if self.scale:
            return f32(r.choice([0, 1, -1, 0.5, 10, 50, 90, 25.5, 1e-3, 1000]) if x < 0.3 else r.uniform(-50, 50) if x < 0.6 else r.uniform(0, 2000))
        if x < 0.45:
            v = r.choice(F32)
        elif x < 0.8:
            v = f32(r.uniform(-1000, 1000))
        else:
            v = u32(r.getrandbits(32))
        if self.finite and (int(v[6:8] + v[4:6], 16) & 0x7f80) == 0x7f80:
            return f32(r.uniform(-1, 1))
        return v

    def text(self, latin):
        r = self.r
        x = r.random()
        if x < 0.06 and self.last is not None:      # the same text in several places
            s = self.last
        elif x < 0.35:
            s = r.choice(WORDS)
        elif x < 0.8:
            n = r.choice([1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64])
            s = "".join(r.choice("abcXYZ_0189 .\u00e4\u00df\u00ff\u00a0") for _ in range(n))
        elif x < 0.96:
            n = r.choice([100, 127, 128, 129, 200, 255, 256, 257, 300])
            s = "".join(r.choice("abcdefgh\u00e9") for _ in range(n))
        else:
            s = "L" * r.choice([1000, 5000, 70000])
        if self.safe_text and len(s) > 100:
            s = s[:100]
        self.last = s
        if latin:
            s = "".join(ch if ord(ch) < 256 else "?" for ch in s)
            if x > 0.3 and x < 0.36 and not self.safe_text:
                s = LATIN.decode("latin-1")
        return s

    def value(self, e):
        r = self.r
        k = e["k"]
        if k == "bool":
            return r.choice(["00000000", "01000000", "01000000", "ff000000", "00000001", "ffffffff"]) if not self.safe_text else r.choice(["00000000", "01000000"])
        if k == "f32":
            return self.f32()
        if k in ("u32", "i32"):
            if self.scale:
                return u32(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 50, 100, 255, 1000]))
            return r.choice(U32) if r.random() < 0.7 else u32(r.getrandbits(32))
        if k == "enum":
            lo, hi = e["dom"]
            return u32(r.randint(lo, hi))
        if k == "q8":
            return u32(r.randint(0, 255))
        if k == "str":
            return st(self.text(True).encode("latin-1"))
        if k == "wstr":
            return wst(self.text(False))
        if k == "color":
            return "".join("%02x" % r.choice([0, 1, 127, 128, 254, 255, r.randrange(256)]) for _ in range(4))
        if k == "vec2":
            return self.f32() + self.f32()
        if k == "vec3":
            return self.f32() + self.f32() + self.f32()
        if k == "vec3p":
            return self.f32() + self.f32() + self.f32() + "00000000"
        if k == "data":
            n = r.choice([0, 1, 2, 3, 4, 5, 12, 32, 33, 100, 1000])
            return bytes(r.randrange(256) for _ in range(n)).hex()
        if k == "font":
            name = self.text(True).encode("latin-1")[:r.choice([0, 5, 32, 255])]
            return ("01" + struct.pack("<HBHI", r.choice([0, 1, 2, 238, 0xffff]), r.randrange(16), r.choice([0, 400, 700, 0xffff]),
                    r.choice([0, 1, 82500, 0xffffffff])).hex() + "%02x" % len(name) + name.hex())
        if k == "mark":
            return ""
        if k == "md5":
            return bytes(r.randrange(256) for _ in range(16)).hex()
        if k == "bits":
            n = r.choice([0, 1, 2, 13, 253, 254, 255, 508, 600])
            b = bytes(r.choice(b"ALTV\x08\0\x01\xff") if r.random() < 0.2 else r.randrange(256) for _ in range(n)).replace(b"ALTV", b"ALTW")
            return b"".join(bytes([len(b[i:i + 254])]) + b[i:i + 254] for i in range(0, n, 254)).replace(b"ALTV", b"ALTW").hex()
        if k == "vec4":
            return self.f32() + self.f32() + self.f32() + self.f32()
        if k == "ccus":
            return "".join("%02x%02x%02x%02x" % tuple(r.randrange(256) for _ in range(4)) for _ in range(16))
        if k == "code":
            x = r.random()
            b = self.text(x < 0.4).encode("latin-1" if x < 0.4 else "utf-8").replace(b"\0", b"")
            if x > 0.7:
                b = b"Option Explicit\r\n' \xef\xbb\xbf " + b + b"\r\n"
            return struct.pack("<I", len(b)).hex() + b.hex()
        raise Exception(k)

    def overlong(self, e):
        if e["k"] in ("data", "font", "sub", "mark", "nest", "code", "mate", "phma", "bits"):
            return ""
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 8, 17, 300])
        # extra bytes that look like records are the nasty ones
        if r.random() < 0.4:
            b = struct.pack("<I", 8) + b"NAME" + b"\x01\0\0\0" + b"\x04\0\0\0ENDB"
            return b[:max(n, 12)].hex()
        return bytes(r.randrange(256) for _ in range(n)).hex()

    UNK = ["ZZZZ", "QQQ1", "ABC", "VPXN", "name", "NAM"]

    def unknown(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            p = b""
        elif x < 0.5:
            p = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 4, 5, 40, 300])))
        elif x < 0.8:
            p = struct.pack("<I", 8) + b"NAME" + b"\x01\0\0\0"
        else:
            p = struct.pack("<I", 4) + b"ENDB"
        return {"t": r.choice(self.UNK), "p": p.hex(), "x": ""}

    def rec(self, e, over=False, alias=True, schema=None, depth=0):
        t = e["t"]
        if alias and e["a"] and self.r.random() < 0.5:
            t = self.r.choice(e["a"])
        if e["k"] in ("sub", "nest"):
            ch = schema[e["c"]]["f"]
            body = [f for f in ch if f["t"] != "#tail"]
            if self.r.random() < 0.5:
                s = self.full(body, schema, shuffle=self.r.random() < 0.5)
            else:
                s = self.history(body, schema, self.r.choice([0, 3, 6, 12]), unk=self.deco, over=self.deco)
            if len(ch) > len(body) and self.r.random() < 0.5:
                s = s + [{"t": "#tail", "p": bytes(self.r.randrange(256) for _ in range(self.r.choice([1, 4, 8, 33]))).hex()}]
            return {"t": t, "k": e["k"], "s": s}
        r = {"t": t, "p": self.value(e), "x": self.overlong(e) if over else ""}
        if e["k"] in ("font", "code", "bits"):
            r["k"] = "nosize"
        return r

    def group(self, e, fields, schema, over=False):
        """Fields whose stored records only make sense together."""
        if e["k"] == "bits":
            altv = [f for f in fields if f["t"] == "ALTV"][0]
            # the size of the record behind the blocks is how their end is found, so that one is never over-long
            return [self.rec(e), self.rec(altv)]
        if e["k"] == "size":
            sized = [f for f in fields if f["k"] == "sized"][0]
            n = self.r.choice([0, 1, 3, 4, 16, 255, 1000])
            b = bytes(self.r.randrange(256) for _ in range(n))
            x = self.overlong({"k": "u32"}) if over else ""
            return [{"t": e["t"], "p": u32(n), "x": self.overlong({"k": "u32"}) if over else ""}, {"t": sized["t"], "p": b.hex(), "x": x}]
        if e["k"] == "sized":
            return []
        return [self.rec(e, over=over, schema=schema)]

    def materials(self):
        """The material count and the two old material tables it counts."""
        r = self.r
        n = r.choice([0, 1, 2, 5])
        nm = lambda: self.text(True).encode("latin-1").replace(b"\0", b"")[:r.choice([31, 30, 5])].ljust(32, b"\0").hex()
        col = lambda: "".join("%02x" % r.randrange(256) for _ in range(4))
        b = lambda: "%02x000000" % r.randrange(256)
        mate = "".join(nm() + col() + col() + col() + self.f32() + r.choice(["00", "01"]) + "000000" + self.f32() + b() + self.f32() + b() + self.f32() + b()
                       for _ in range(n))
        out = [{"t": "MASI", "p": u32(n), "x": ""}, {"t": "MATE", "p": mate, "x": ""}]
        if r.random() < 0.6:
            out.append({"t": "PHMA", "p": "".join(nm() + self.f32() + self.f32() + self.f32() + self.f32() for _ in range(n)), "x": ""})
        return out

    def full(self, fields, schema, opt=0.6, shuffle=False, over=0.0, unk=0.0, maxlist=4, alias=False):
        """One record per field (subset of the optional ones), in stored order or shuffled."""
        out = []
        for e in fields:
            if e["m"] == "mark":
                out.append([{"t": e["t"], "p": "", "x": ""}])
            elif e["m"] == "zip":
                if e["t"] == "M3AY":
                    ax = [f for f in fields if f["t"] == "M3AX"][0]
                    for _ in range(self.r.choice([0, 0, 1, 3])):
                        out.append([self.rec(e), self.rec(ax)])
            elif e["m"] == "list":
                for _ in range(self.r.choice([0, 1, 2, maxlist]) if maxlist < 4 or self.r.random() > .12 else self.r.choice([40, 70, 130])):
                    if out and out[-1][0]["t"] == e["t"] and self.r.random() < 0.2:     # an element twice in a row
                        out.append(json.loads(json.dumps(out[-1])))
                    else:
                        out.append([self.rec(e, schema=schema)])
            elif e["k"] == "masi":
                out.append(self.materials())
            elif e["k"] in ("mate", "phma"):
                pass
            elif e["k"] in ("bits", "size", "sized"):
                if e["m"] == "always" or self.r.random() < opt:
                    out.append(self.group(e, fields, schema, over=self.r.random() < over))
            elif e["m"] == "always" or self.r.random() < opt:
                out.append([self.rec(e, over=self.r.random() < over, alias=alias, schema=schema)])
            if self.r.random() < unk:
                out.append([self.unknown()])
        if shuffle:
            self.r.shuffle(out)
        return [x for y in out for x in y]

    def history(self, fields, schema, n, unk=0.15, over=0.15):
        out = []
        fs = [e for e in fields if e["m"] != "zip" and e["k"] not in ("masi", "mate", "phma")]
        for _ in range(n):
            if self.r.random() < unk or not fs:
                out.append(self.unknown())
            else:
                out += self.group(self.r.choice(fs), fields, schema, over=self.r.random() < over)
        return out

    def template(self, ops, ea, eb, el, schema):
        """Instantiates an abstract history of RecordsMC with concrete fields for the roles A, B and L."""
        out = []
        cache = {}
        for role, cls, over in ops:
            if role in ("A", "B", "A0") and (ea if role[0] == "A" else eb)["k"] in ("bits", "size", "sized"):
                e = ea if role[0] == "A" else eb
                if (role[0], cls) not in cache:
                    cache[(role[0], cls)] = self.group(e, schema["#"], schema, over=bool(over))
                out += cache[(role[0], cls)]
                continue
            if role == "unknown":
                out.append(self.unknown())
                continue
            e = {"A": ea, "A0": ea, "B": eb, "L": el, "mark": None}.get(role)
            if e is None:
                continue
            key = (role, cls)
            r = self.rec(e, over=bool(over), alias=(role == "A0"), schema=schema)
            if role != "A0":
                r["t"] = e["t"]
            if e["k"] not in ("sub", "nest"):
                if (e["t"], cls) in cache:
                    r["p"] = cache[(e["t"], cls)]
                cache[(e["t"], cls)] = r["p"]
            out.append(r)
        return out


def schema(name):
    with open(os.path.join(SPECDIR, name)) as f:
        return json.load(f)

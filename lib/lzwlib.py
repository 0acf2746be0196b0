"""Compressed bitmap data built without the library: streams of every policy the format allows, and data whose compressed form looks like the next record."""
from lib.tabgen import blocks

MARK = b"\x08\0\0\0ALTV\x40"


def codes_of(data, clear_first=True, clear_at=4096, greedy=1.0, r=None):
    """(code, width); clear_at: the next code at which the table is cleared (None: a full table stays); greedy: probability of taking the longest match"""
    out = [(256, 9)] if clear_first else []
    table, nxt, w, prev = {}, 258, 9, None
    p = 0
    while p < len(data):
        n = 1
        while p + n < len(data) and data[p:p + n + 1] in table:
            n += 1
        # the decoder does not have the last entry yet, except as what follows the previous string
        if greedy < 1 and r.random() > greedy:
            n = r.randint(1, n)
        s = data[p:p + n]
        out.append((s[0] if n == 1 else table[s], w))
        p += n
        if nxt < 4096:
            if p < len(data):
                table.setdefault(data[p - n:p + 1], nxt)
            if nxt == (1 << w) and w < 12:
                w += 1
            nxt += 1
        if clear_at is not None and nxt >= clear_at:
            out.append((256, w))
            table, nxt, w = {}, 258, 9
    out.append((257, w))
    return out


def pack(codes):
    out, acc, nb = bytearray(), 0, 0
    for c, w in codes:
        acc |= c << nb
        nb += w
        while nb >= 8:
            out.append(acc & 255)
            acc >>= 8
            nb -= 8
    if nb:
        out.append(acc & 255)
    return bytes(out)


def unblock(b):
    out, i = bytearray(), 0
    while i < len(b):
        out += b[i + 1:i + 1 + b[i]]
        i += b[i] + 1
    return bytes(out)


def decode(s):
    """[(code, width, bit offset, entries, position in the data)], data"""
    off, w, n, prev, res, tab, out = 0, 9, 0, None, [], {}, bytearray()
    while True:
        c = (int.from_bytes(s[off >> 3:(off >> 3) + 3], "little") >> (off & 7)) & ((1 << w) - 1)
        res.append((c, w, off, n, len(out)))
        off += w
        if c == 257:
            return res, bytes(out)
        if c == 256:
            w, n, prev, tab = 9, 0, None, {}
            continue
        st = bytes([c]) if c < 256 else tab.get(c) or prev + prev[:1]
        if prev is not None and 258 + n < 4096:
            tab[258 + n] = prev + st[:1]
            n += 1
        if 258 + n == (1 << w) and w < 12:
            w += 1
        out += st
        prev = st


def fake_stream(r, block=254):
    """blocks whose last is MARK, by codes of 9 bits and clear codes"""
    bits = 8 * block
    k = 1
    while (bits * k) % 9:
        k += 1
    n = bits * k // 9      # codes before the last block
    out, since = [], 0
    for i in range(n):
        left = n - i
        if i == 0 or left > 160 and (since > 200 or r.random() < .01) or left == 160:
            out.append(256)
            since = 0
        else:
            out.append(r.randrange(1, 256))
            since += 1
    out += [0, 0, 64, 392, 324, 178, 257]
    b = blocks(pack([(c, 9) for c in out]), block)
    assert b.endswith(MARK)
    return b, decode(unblock(b))[1]


def walk(r, n):
    """bytes other than 0, no pair twice within 5000"""
    out, recent = [1], {}
    while len(out) < n:
        for _ in range(500):
            b = r.randrange(1, 256)
            if len(out) - recent.get((out[-1], b), -9999) > 5000:
                break
        recent[(out[-1], b)] = len(out)
        out.append(b)
    return bytes(out)


def fake_data(r, compress):
    """data that the given compressor (a list of data -> a list of blocks) makes end in MARK; None if it does not come about"""
    d = walk(r, 160000)
    cs, o = decode(unblock(compress([d])[0]))
    if o != d:
        return None
    clears = [i for i, c in enumerate(cs) if c[0] == 256]
    for i, c in enumerate(cs):
        if c[1] != 9 or c[2] % 2032 or not 136 < c[3] < 245:
            continue
        s = max(k for k in clears if k < i)
        start = cs[s + 1][4]
        pair = lambda code: d[start + code - 258:start + code - 256]
        pre = d[:c[4]]
        tail = bytes([0, 0, 64]) + pair(392) + pair(324) + bytes([178])
        need = -(len(pre) + len(tail)) % 4
        cands = []
        for _ in range(60):
            q = bytearray(pre)
            for _ in range(need):
                p, k = r.randrange(1000, 3000), r.randrange(10, 900)
                q[p:p + 1] = q[k:k + 2]
            cands.append(bytes(q) + tail)
        for q, b in zip(cands, compress(cands)):
            if b.endswith(MARK):
                return q, b
    return None


def edges(r, streams=60, top=2300, per=1):
    """data whose compressed form ends next to the end of a block, for every width of the last code and with a last byte that is zero or not"""
    got = {}
    for k in range(streams):
        n = r.choice([280, 600, 600, 1100, top])
        d = bytes(r.randrange(256) for _ in range(n)) if k % 4 else bytes(r.choice(b"abcdefgh") for _ in range(n * 3))
        table, nxt, w, bits, i = {}, 258, 9, 9, 0
        while i < len(d) and nxt < 4000:
            j = 1
            while i + j < len(d) and d[i:i + j + 1] in table:
                j += 1
            # the data could end after each byte of this string
            bits += w
            w2 = w + 1 if nxt == (1 << w) and w < 12 else w
            tot = bits + w2
            z = (257 >> (w2 - ((tot - 1) % 8 + 1))) == 0
            key = (((tot + 7) // 8) % 254, w2, z)
            if key[0] in (0, 1, 253) and len(got.setdefault(key, [])) < per:
                got[key].append(d[:i + j])
            table.setdefault(d[i:i + j + 1], nxt)
            w = w2
            nxt += 1
            i += j
    return [(k, d) for k in sorted(got) for d in got[k]]

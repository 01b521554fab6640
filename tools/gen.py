"""Workloads: inputs only.  Every function returns operation lines for the
harness; what they must give is decided by the TLA+ specification."""
import re
import glob, os, random

# ---------------------------------------------------------------- building

def hx(b):
    return bytes(b).hex() or "-"


def op(name, b, *args):
    return name + "".join(f":{a}" for a in args) + " " + hx(b)


def wrap(data, c=0x08, a=0x01):
    body = [c, a] + list(data)
    l = len(body)
    if l > 255:
        return None
    return [0x68, l, l, 0x68] + body + [sum(body) & 255, 0x16]


def pkt(data, c=0x08, a=0x01, name="pkt"):
    w = wrap(data, c, a)
    return None if w is None else op(name, w)


def short(c, a):
    return [0x10, c, a, (c + a) & 255, 0x16]


LONG0 = [0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00]
SHORT0 = [0x55, 0x00, 0x00, 0x00]
HDR_SHORT = {0x5A, 0x61, 0x65, 0x67, 0x6A, 0x6E, 0x74, 0x7A, 0x7B, 0x7D, 0x8A, 0x88, 0x9E, 0xC1, 0xC4}
HDR_LONG = {0x53, 0x55, 0x5B, 0x5F, 0x60, 0x64, 0x68, 0x6B, 0x6C, 0x6D, 0x6F, 0x72, 0x73, 0x75, 0x7C,
            0x80, 0x82, 0x84, 0x85, 0x87, 0x8B, 0x9F, 0xC0, 0xC2, 0xC3, 0xC5}


def man(s):
    v = 0
    for ch in s:
        v = v * 32 + ord(ch) - 64
    return [v & 255, v >> 8]


# every row of the name table, the ranges by their borders
KNOWN = [(m, v) for m, vs in {
    "ABB": (2, 0x20), "ACW": (9, 10, 11, 14, 15, 0x14), "AMT": (0, 0x3F, 0x40, 0x7F, 0x80, 0xBF, 0xC0, 0xFF), "BEC": (0, 7, 0x71),
    "EFE": (0, 1), "ELS": (2, 10, 0x2F), "ELV": (0x14, 0x1D, 0x32, 0x3B), "EMH": (0,), "EMU": (0x10,), "GAV": (0x2D, 0x30, 0x39, 0x3A, 0x40),
    "GMC": (0xE6,), "HYD": (0x28, 0x2F), "JAN": (9,), "KAM": (1, 8), "LSE": (0x99,), "LUG": (2, 3, 4, 7), "NZR": (1, 0x50), "RAM": (3,),
    "REL": (8, 0x12, 0x20, 0x30, 0x40), "RKE": (0x69,), "SBC": (0x10, 0x11, 0x19), "SEN": (8, 0x0B, 0x0E, 0x19),
    "SEO": (0x30, 0x41, 0x45, 0x48, 0x51, 0x61, 0x80), "GTE": (0x30, 0x41, 0x45, 0x48, 0x51, 0x61, 0x80), "SLB": (2, 6), "SON": (0x0D,),
    "SPX": (0x31, 0x34), "SVM": (8, 9), "TCH": (0x26, 0x40), "WZG": (3,), "ZRM": (0x81, 0x82)}.items() for v in vs]
# what a device mostly is: the types the standard gives a name
TYPES = list(range(0x00, 0x10)) + [0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1B, 0x1C, 0x1D, 0x1E, 0x1F, 0x20, 0x21, 0x25, 0x28, 0x29, 0x2A,
                                   0x31, 0x36, 0x37, 0x38, 0x3F, 0x40, 0xFF]


def long_hdr(rng):
    h = long_hdr1(rng)
    if rng.random() < .3:           # a device that is known, mostly
        m, v = rng.choice(KNOWN)
        h[4:6] = man(m)
        h[6] = v
        if m in ("SBC", "SEO", "GTE", "SLB") or rng.random() < .1:
            h[3] = v if v & 15 < 10 and v >> 4 < 10 else h[3]
    if rng.random() < .5:
        h[7] = rng.choice(TYPES)
    rng.ctx = h
    return h


def ident(rng):
    """an identification number; its bytes may each be special"""
    k = rng.random()
    if k < .1:
        return [rng.choice([0, 0x99])] * 4
    if k < .5:
        return [rng.choice([0, 0, 1, 9, 0x10, 0x50, 0x90, 0x99, rng.randrange(10) + 16 * rng.randrange(10)]) for _ in range(4)]
    if k < .6:
        return list(bytes.fromhex("%08d" % rng.randrange(10 ** rng.randrange(9))))[::-1]
    return [rng.randrange(10) + 16 * rng.randrange(10) for _ in range(4)]


def long_hdr1(rng):
    i4 = ident(rng)
    m = man("".join(chr(65 + rng.randrange(26)) for _ in range(3)))
    cfg = [0, 0] if rng.random() < .7 else [rng.randrange(256), rng.choice([6, 11, 12, 14] + list(range(16, 32))) + 32 * rng.randrange(8)]
    h = i4 + m + [rng.randrange(256), rng.choice([rng.randrange(64), rng.randrange(256)]),
                     rng.randrange(256), rng.randrange(256)] + cfg
    if rng.random() < .2:           # extreme values, several at a time
        for i in (6, 7, 8, 9):
            if rng.random() < .7:
                h[i] = rng.choice([0, 0, 0xFF])
        if rng.random() < .3:
            h[0:4] = [rng.choice([0, 0x99])] * 4
    return h


def short_hdr(rng):
    return long_hdr(rng)[8:]


def hdr_for(ci, rng=None):
    if ci in HDR_LONG:
        return long_hdr(rng) if rng else list(LONG0)
    if ci in HDR_SHORT:
        return short_hdr(rng) if rng else list(SHORT0)
    return []


def resp(recs, rng=None, ci=0x72):
    return [ci] + hdr_for(ci, rng) + list(recs)


WIDTH = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 4, 6: 6, 7: 8, 9: 1, 10: 2, 11: 3, 12: 4, 14: 6}
FIELDS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14]
DATE_VIFS = [[0x6C], [0x6D], [0xFD, 0x72]]


def bcd(rng, n, neg=None):
    b = [rng.randrange(10) + 16 * rng.randrange(10) for _ in range(n)]
    if getattr(rng, "seqs", None) and rng.random() < .4:
        b = rng.fill(n)
    if n and (neg if neg is not None else rng.random() < .2):
        b[-1] = (b[-1] & 15) | 0xF0
    return b


def lvar_len(b):
    if b <= 0xBF:
        return b
    if 0xC0 <= b <= 0xC9:
        return b - 0xC0
    if 0xD0 <= b <= 0xD9:
        return b - 0xD0
    if 0xE0 <= b <= 0xEF:
        return b - 0xE0
    if 0xF0 <= b <= 0xF4:
        return 4 * (b - 0xEC)
    return {0xF5: 48, 0xF6: 64}.get(b)


def echo(rng, n):
    """what was in the header already, again"""
    h = getattr(rng, "ctx", None) or LONG0
    k = rng.random()
    if k < .3:
        b = [rng.choice(h)] * n
    elif k < .6:
        i = rng.choice([0, 0, 4, 6, 7, 8, 8, 8])
        b = (h[i:] + h) * 20
    elif k < .8:
        b = [h[8]] * rng.choice([1, 2, 3]) + [rng.randrange(256) for _ in range(n)]
    else:
        b = [n & 255, h[8]] + h * 20
    return (b + [rng.randrange(256) for _ in range(n)])[:n]


def rnd(rng, n):
    if getattr(rng, "seqs", None) and rng.random() < .4:
        return rng.fill(n)
    k = rng.random()
    if k < .46:
        return [rng.randrange(256) for _ in range(n)]
    if k < .5:
        return echo(rng, n)
    if k < .6:
        return [rng.choice([0x2F, 0x0F, 0x1F]) for _ in range(n)]
    if k < .7:
        return [0xFF] * n
    if k < .8:
        return [0] * n
    if k < .9:
        return [rng.choice([0, 0xFF, 0x7F, 0x80]) for _ in range(n)]
    return [rng.choice([0x68, 0x16, 0x10, 0xE5, 0x72]) for _ in range(n)]


def pick(rng, special, any_, share=.35):
    return rng.choice(special) if rng.random() < share else rng.choice(any_)


def valid_date(rng, n):
    """a date of that width; every field is special about as often as not"""
    y = pick(rng, [0, 1, 80, 81, 99], range(100))
    d = pick(rng, [0, 1, 28, 29, 30, 31], range(32)) + 32 * (y & 7)
    m = pick(rng, [0, 1, 2, 12, 15], list(range(13)) + [15]) + 16 * (y >> 3)
    dm = [d, m]
    sixty = list(range(60)) + [63]
    mi = pick(rng, [0, 59, 63], sixty)
    hr = pick(rng, [0, 12, 23, 31], list(range(24)) + [31])
    se = pick(rng, [0, 59, 63], sixty)
    if n == 2:
        return dm
    if n == 4:
        return [mi, hr + 32 * pick(rng, [0], range(8))] + dm
    if n == 3:
        return [se, mi, hr]
    if n == 6:
        return [se + 64 * pick(rng, [0], range(4)), mi + 64 * rng.randrange(2), hr + 32 * pick(rng, [0, 1, 7], range(8))] + dm + \
            [pick(rng, [0, 1, 52, 53], range(54)) + 64 * pick(rng, [0], range(4))]
    return [0] * n


def valid_dst(rng):
    loc = pick(rng, [0, 1, 12, 23, 31], list(range(24)) + [31])
    return [pick(rng, [0, 1, 2, 3, 23, 31], list(range(24)) + [31]) + 32 * (loc & 7),
            pick(rng, [1, 31], range(1, 32)) + 32 * (loc >> 3) + 128 * rng.randrange(2),
            pick(rng, [1, 31], range(1, 32)) + 32 * rng.randrange(8),
            pick(rng, [1, 3, 12], range(1, 13)) + 16 * pick(rng, [1, 10, 12], range(1, 13))]


def difes(rng, n):
    """n extension bytes: DIF must carry the extension bit iff n > 0"""
    return [rng.randrange(128) | (0x80 if k < n - 1 else 0) for k in range(n)]


def vifes(rng, n):
    return [rng.randrange(128) | (0x80 if k < n - 1 else 0) for k in range(n)]


def vib(rng, allow_text=True):
    """a complete value information block"""
    k = rng.random()
    ext = vifes(rng, rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 10]))
    e = 0x80 if ext else 0
    if k < .5:
        v = rng.choice([rng.randrange(0x7B), 0x13, 0x05, 0x6C, 0x6D])
        return [v | e] + ext
    if k < .62:
        return [0xFB, rng.randrange(128) | e] + ext
    if k < .78:
        v = rng.choice([x for x in range(128) if x != 0x7D] + [0x72] * 6)
        return [0xFD, v | e] + ext
    if k < .84:
        return [0xFD, 0xFD, rng.randrange(128) | e] + ext
    if k < .90 and allow_text:
        t = utext(rng, rng.choice([0, 1, 2, 3, 8]))
        return [0x7C | e, len(t)] + t + ext
    if k < .96:
        return [rng.choice([0x7E, 0x7F]) | e] + ext
    return [0x13 | e] + ext


UNITS = ["kWh", "m3", "m³", "l", "°C", "%", "A", "V", "W", "EUR", " ", "  ", "   ", "-", "0", "1", "\0", "\0\0", "/", "m³/h", " K", "K ", "$", "_"]


def utext(rng, n):
    if n and rng.random() < .25:
        u = rng.choice(UNITS)
        return list((u if rng.random() < .5 else u[::-1]).encode())
    s = ""
    for _ in range(n):
        s += rng.choice([chr(rng.randrange(32, 127)), chr(rng.randrange(32, 127)), "°", "³", "€", "µ", "\U0001d11e"])
    return list(s.encode())


def quantity(rng):
    """any quantity that is not a date, a text or an error"""
    k = rng.random()
    if k < .55:
        return [rng.choice([v for v in range(0x7B) if v not in (0x6C, 0x6D)] + [0x7E, 0x7F])]
    if k < .7:
        return [0xFB, rng.randrange(128)]
    if k < .9:
        return [0xFD, rng.choice([v for v in range(128) if v not in (0x72, 0x7D)])]
    return [0xFD, 0xFD, rng.randrange(128)]


def data_for(rng, field, vb):
    """data bytes a record with this field and value information takes; mostly valid"""
    if field == 13:
        k = rng.random()
        if k < .4:
            n = rng.choice([0, 1, 2, 5, 20])
            return [n] + rnd(rng, n)
        if k < .55:
            n = rng.randrange(10)
            return [0xC0 + n] + bcd(rng, n, False)
        if k < .7:
            n = rng.randrange(10)
            return [0xD0 + n] + bcd(rng, n, rng.random() < .5)
        if k < .9:
            n = rng.randrange(16)
            return [0xE0 + n] + rnd(rng, n)
        lb = rng.choice([0xF0, 0xF1, 0xF2, 0xF3, 0xF4])
        return [lb] + rnd(rng, lvar_len(lb))
    n = WIDTH[field]
    if vb[0] & 0x7F == 0x6C and field == 2:
        return valid_date(rng, 2)
    if vb[0] & 0x7F == 0x6D and field in (3, 4, 6):
        return valid_date(rng, n)
    if vb[0] == 0xFD and vb[1] & 0x7F == 0x72 and field == 4:
        return valid_dst(rng)
    if field in (9, 10, 11, 12, 14):
        return bcd(rng, n) if rng.random() < .8 else rnd(rng, n)
    return rnd(rng, n)


def record(rng, field=None, vb=None, nd=None, allow_text=True):
    field = rng.choice(FIELDS) if field is None else field
    nd = rng.choice([0, 0, 0, 1, 1, 2, 4, 10]) if nd is None else nd
    vb = vib(rng, allow_text) if vb is None else vb
    d = difes(rng, nd)
    dif = field | (rng.randrange(8) << 4) | (0x80 if d else 0)
    return [dif] + d + vb + data_for(rng, field, vb)


def records(rng, n, cap=230):
    out = []
    for _ in range(n):
        r = record(rng)
        if len(out) + len(r) > cap:
            break
        out.append(r)
    return out


def small_records(rng, n, cap=235):
    """many short records"""
    out = []
    for _ in range(n):
        f = rng.choice([0, 1, 1, 2, 9, 13])
        r = record(rng, field=f, vb=[rng.choice([0x13, 0x03, 0x5B, 0x6C, 0x74, rng.randrange(0x7B)])], nd=rng.choice([0, 0, 0, 1]))
        if f == 13:
            r = [0x0D, 0x13, rng.choice([0, 1, 0xC1, 0xE1])]
            r += {0: [], 1: [0x2F], 0xC1: [0x12], 0xE1: [0x1F]}[r[2]]
        if sum(map(len, out)) + len(r) > cap:
            break
        out.append(r)
    return out


def siblings(rng, p):
    """telegrams that something remembering p might mistake for p"""
    out = []
    if len(p) < 12 or p[0] != 0x68:
        return [mutate(rng, p)]
    d = list(p[6:-2])
    for _ in range(4):                       # same length and checksum
        x = list(d)
        i, j = rng.randrange(1, len(x)), rng.randrange(1, len(x))
        if rng.random() < .5:
            x[i], x[j] = x[j], x[i]
        else:
            k = rng.choice([1, 1, 16, rng.randrange(1, 256)])
            x[i], x[j] = (x[i] + k) & 255, (x[j] - k) & 255
        out.append(wrap(x, p[4], p[5]))
    for _ in range(4):                       # one field differs
        x = list(d)
        x[rng.randrange(1, len(x))] ^= rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 3, 15, 240])
        out.append(wrap(x, p[4], p[5]))
    h = 1 + len(hdr_for(d[0]) or [])
    body = sum(records(rng, 3, 60), [])
    out.append(wrap(d[:h] + body, p[4], p[5]))          # same device, other data
    if len(d) > h:
        hd = (long_hdr(rng) if h == 13 else d[1:h])
        out.append(wrap([d[0]] + hd + d[h:], p[4], p[5]))   # other device, same data
    out.append(wrap(d, rng.choice(CONTROLS), rng.randrange(256)))
    out.append(p[:-1])
    out.append(p[:rng.randrange(len(p))])
    return [x for x in out if x]


def twins(rng, a):
    """byte sequences a weak digest takes for a"""
    out = []
    n = len(a)
    for _ in range(3):
        if n < 2:
            break
        for di, dj in ((1, -31), (-1, 31), (1, -1), (1, -256 // 8), (2, -1), (1, -2), (1, 1), (16, -16), (1, -33 % 256), (1, -7), (1, -10), (1, -16), (0, 1), (1, 0)):
            i = rng.randrange(n - 1)
            j = i + 1 if rng.random() < .7 else rng.choice([k for k in range(n) if k != i])
            b = list(a)
            b[i], b[j] = (b[i] + di) & 255, (b[j] + dj) & 255
            out.append(b)
        i, j = rng.sample(range(n), 2)
        b = list(a)
        b[i], b[j] = b[j], b[i]
        out.append(b)
        b = list(a)
        k = rng.choice([1, 2, 4, 32, 128])
        b[i] ^= k
        b[j] ^= k
        out.append(b)
    out.append(a[::-1])
    return [b for b in out if b != a]


def remembered(rng):
    """pairs of telegrams that differ in one field only, and there weakly"""
    out = []
    h = long_hdr(rng)
    ascii_ = [rng.randrange(0x41, 0x5B) + 32 * rng.randrange(2) for _ in range(rng.choice([2, 3, 4, 6, 8]))]
    forms = [
        (ascii_, lambda x: h + [0x01, 0x7C, len(x)] + x + [5], lambda x: all(c < 128 for c in x)),
        (ascii_, lambda x: h + [0x0D, 0x13, len(x)] + x, lambda x: True),
        (rnd(rng, rng.choice([2, 4, 8])), lambda x: h + [{2: 2, 4: 4, 8: 7}[len(x)], 0x13] + x, lambda x: True),
        (rnd(rng, rng.choice([9, 12, 16])), lambda x: h + [0x0D, 0x13, {9: 0xE9, 12: 0xEC, 16: 0xF0}[len(x)]] + x, lambda x: True),
        (bcd(rng, 4, False), lambda x: h + [0x0C, 0x13] + x, lambda x: True),
        ([rng.randrange(0x80, 0xFB) for _ in range(4)], lambda x: h + [0x01, 0x93] + x + [0x22, 5], lambda x: all(c & 128 for c in x)),
        ([rng.randrange(0x80, 0xFF) for _ in range(4)], lambda x: h + [0x81] + x + [0x11, 0x13, 5], lambda x: all(c & 128 for c in x)),
        (h[0:4], lambda x: x + h[4:] + [0x01, 0x13, 5], lambda x: True),
        (valid_date(rng, 4), lambda x: h + [0x04, 0x6D] + x, lambda x: True),
        (valid_date(rng, 2), lambda x: h + [0x02, 0x6C] + x, lambda x: True),
        (rnd(rng, rng.choice([2, 5, 9])), lambda x: h + [0x0F] + x, lambda x: True),
    ]
    for a, f, ok in forms:
        t = [b for b in twins(rng, a) if ok(b)]
        rng.shuffle(t)
        items = []
        for b in t[:6]:
            items += [wrap([0x72] + f(a)), wrap([0x72] + f(b))]
        out.append(items)
    return out


def series(rng, n):
    """n telegrams of one kind, whose fields differ: what one leaves behind meets every other"""
    ci = rng.choice([0x78, 0x78, 0x7A, 0x72])
    mine = hdr_for(ci, rng)
    one = lambda f, vb, d: lambda: [ci] + mine + [f | 16 * rng.choice([0, 0, 0, 1, 2, 3])] + vb + d()
    vb = [rng.randrange(0x7B)]
    forms = [one(4, [0x6D], lambda: valid_date(rng, 4)), one(2, [0x6C], lambda: valid_date(rng, 2)), one(3, [0x6D], lambda: valid_date(rng, 3)),
             one(6, [0x6D], lambda: valid_date(rng, 6)), one(4, [0xFD, 0x72], lambda: valid_dst(rng)), one(5, vb, lambda: kind_real(rng)),
             one(13, vb, lambda: kind_lvar(rng, 0)), one(13, vb, lambda: kind_lvar(rng, 1)), one(0, [], lambda: kind_vib(rng, 0)),
             one(1, [], lambda: vifes_from(rng)), one(1, [0x7C], lambda: (lambda u: [len(u)] + u + [5])(utext(rng, rng.randrange(9))))]
    forms += [one(f, vb, lambda f=f: kind_data(rng, f)) for f in (1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 14)]
    forms += [lambda: [ci] + mine + kind_dib(rng, 1) + [0x13, 5], lambda: [ci] + kind_header(rng, ci) + [1, 0x13, 5],
              lambda: [0x72] + kind_header(rng, 0x72) + [1, 0x13, 5], lambda: [ci] + mine + sum((kind_record(rng) for _ in range(rng.randrange(4))), []),
              lambda: [ci] + mine + [1, 0x13, 5] * rng.randrange(3) + [0x2F] * rng.randrange(4) + rng.choice([[], [0x0F], [0x1F]]) + rng.choice([[], rnd(rng, 3)]),
              lambda: [0x50] + rnd(rng, rng.randrange(6)), lambda: [0x66] + rng.choice([[x] for x in range(256)] + [[x, y] for x in (0, 16, 240, 255) for y in (0, 1, 16, 255)]),
              lambda: [0x70] + rng.choice([[], [rng.randrange(0x24)], [0xF0] + kind_record(rng), [rng.randrange(0xF0, 256)] + rnd(rng, 3)]),
              lambda: (lambda c: [c] + hdr_for(c, rng) + rnd(rng, rng.randrange(6)))(rng.choice(RAW_CIS)), lambda: telegram_data(rng)]
    f = rng.choice(forms[:5]) if rng.random() < .25 else rng.choice(forms)
    c, a = rng.choice(CONTROLS), rng.randrange(256)
    out = []
    while len(out) < n:
        w = wrap(f(), c, a)
        if w:
            out.append(w if rng.random() < .95 else mutate(rng, w))
    return out


def vifes_from(rng):
    return [rng.randrange(0x80, 0xFB)] + vifes(rng, rng.choice([1, 1, 2, 3, 5])) + [rng.randrange(256)]


def telegram_data(rng):
    """application data of a plausible telegram of any kind"""
    k = rng.random()
    if k < .6:
        ci = rng.choice([0x72, 0x78, 0x7A])
        body = []
        for r in records(rng, rng.randrange(5)):
            body += [0x2F] * rng.choice([0, 0, 0, 1, 3]) + r
        if rng.random() < .3:
            body += [rng.choice([0x0F, 0x1F])] + rnd(rng, rng.randrange(8))
        return [ci] + hdr_for(ci, rng) + body
    ci = rng.choice([0x50, 0x53, 0x54, 0x55, 0x66, 0x67, 0x68, 0x52, 0x5C, 0x6C, 0x6D, 0x51, 0x5A, 0x5B, 0x6E, 0x6F,
                     0x70, 0x71, 0x74, 0x75, 0xB8, 0xBB, 0xBF, 0x90, 0x8A, 0xA5, 0xC0, 0xC4, 0x5F, 0x60, 0x03])
    body = rnd(rng, rng.randrange(10))
    if ci in (0x66, 0x67, 0x68, 0x50, 0x53):
        body = [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 3]))]
    if ci in (0x6E, 0x6F, 0x70) and rng.random() < .8:
        body = rng.choice([[], [rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 0x11, 0x16, 0x20])],
                           [0xF0] + record(rng), [rng.randrange(0xF1, 256)] + body])
    return [ci] + hdr_for(ci, rng) + body


CONTROLS = [c for c in range(128)
            if (c & 64 and (c & 15, (c >> 4) & 1) in
                [(0, 0), (1, 0), (3, 1), (4, 0), (8, 0), (9, 0), (10, 1), (11, 1)])
            or (not c & 64 and c & 15 in (0, 1, 8, 9, 11, 14, 15))]


def packet(rng):
    k = rng.random()
    if k < .04:
        return [0xE5]
    if k < .12:
        return short(rng.choice(CONTROLS), rng.randrange(256))
    while True:
        w = wrap(telegram_data(rng), rng.choice(CONTROLS), rng.randrange(256))
        if w:
            return w


def corpus():
    """the telegrams the repository ships, as bytes"""
    out = []
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")
    for f in sorted(glob.glob(base + "/*.hex")):
        try:
            out.append([int(t, 16) for t in open(f).read().split()])
        except ValueError:
            pass
    return out


def corpus_data():
    """their application data (CI onwards)"""
    return [p[6:-2] for p in corpus() if len(p) > 9 and p[0] == 0x68 and len(p) == p[1] + 6]


def fix(p):
    """recompute length and checksum of a long frame"""
    return wrap(p[6:-2], p[4], p[5]) if len(p) >= 8 else p


def mutate(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        if not b or k < .2:
            b.insert(rng.randrange(len(b) + 1), rng.randrange(256))
        elif k < .35:
            del b[rng.randrange(len(b))]
        elif k < .5:
            b = b[:rng.randrange(len(b) + 1)]
        elif k < .8:
            b[rng.randrange(len(b))] = rng.choice([rng.randrange(256), 0, 0xFF, 0x80, 0x7F, 0x2F, 0x0F, 0x1F, 0x0D, 0x7C, 0xFD])
        else:
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
    return b


def clean(ops):
    return [o for o in ops if o]


def any_dib(rng, field):
    """every combination of function, storage, tariff, subunit none or some, register or not, is likely"""
    fn, sto0 = rng.randrange(4), rng.randrange(2)
    sto, tar, sub, reg = (rng.random() < .5 for _ in range(4))
    if rng.random() < .25:
        sto = tar = sub = False
    n = rng.choice([1, 1, 1, 2, 2, 3, 5, 9, 10]) if sto or tar or sub else 0
    ch = [(rng.randrange(1, 16) if sto else 0) | (rng.randrange(1, 4) << 4 if tar else 0) | (64 if sub else 0) for _ in range(n)]
    for i in range(n):
        if n > 1 and rng.random() < .3:
            ch[i] &= rng.choice([0x0F, 0x30, 0x40, 0])
    if n and not ch[-1]:
        ch[-1] = 1
    if reg and n < 10:
        ch.append(0)
    return [field | fn << 4 | sto0 << 6 | (0x80 if ch else 0)] + [c | (0x80 if i < len(ch) - 1 else 0) for i, c in enumerate(ch)]


SPECIAL = [0x00, 0x01, 0x0A, 0x0D, 0x0F, 0x10, 0x16, 0x1F, 0x20, 0x2F, 0x68, 0x7F, 0x80, 0xA0, 0xE5, 0xFF]
PAIRS = [[a, b] for a in SPECIAL for b in SPECIAL]


def ends(rng, share):
    """contents with every pair of special bytes at their start and end"""
    for a in PAIRS:
        if rng.random() < share:
            yield a + [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 20]))] + rng.choice(PAIRS)
        if rng.random() < share:
            yield rng.choice(PAIRS) + [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 20]))] + a


def after(rec):
    """where the value information of a record starts"""
    i = 1
    while i < len(rec) and rec[i - 1] & 0x80:
        i += 1
    return i


def relative(rng, r, pool):
    """a record that has something in common with r"""
    i = after(r)
    k = rng.random()
    if k < .15:
        return list(r)                                          # the same again
    if k < .3:                                                  # the same quantity and data under another description
        return any_dib(rng, r[0] & 15) + r[i:]
    if k < .5:                                                  # another function
        return [r[0] & 0xCF | rng.randrange(4) << 4] + r[1:]
    if k < .6:                                                  # another function, none of the extensions
        return [r[0] & 0x4F | rng.randrange(4) << 4] + r[i:]
    if k < .7 and i > 1:                                        # one extension bit differs
        q = list(r)
        q[rng.randrange(1, i)] ^= 1 << rng.randrange(7)
        return q
    if k < .8:                                                  # other data
        q = list(r)
        if i + 1 < len(q) and r[0] & 15 not in (13, 0):
            q[-1] ^= 1 << rng.randrange(8)
        return q
    q = rng.choice(pool)                                        # the same description of another quantity
    return r[:i] + q[after(q):] if q[0] & 15 == r[0] & 15 else list(q)


def company(rng, pool, k):
    """telegrams of records from the pool, related to each other, of all kinds of devices"""
    out = []
    for _ in range(k):
        hd = rng.choice([0x72, 0x72, 0x72, 0x78, 0x7A])
        h = hdr_for(hd, rng)
        room = rng.choice([20, 40, 60, 60, 100, 235 - len(h), 250 - len(h)])
        want = rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 10, 100]) if room < 200 else 100
        rs = []
        while len(rs) < want:
            r = relative(rng, rs[-1] if rng.random() < .6 else rng.choice(rs), pool) if rs and rng.random() < .6 else list(rng.choice(pool))
            if sum(map(len, rs)) + len(r) > room:
                break
            rs.append(r)
        body = []
        for r in rs:
            body += ([0x2F] * rng.choice([1, 1, 2, 5]) if rng.random() < .1 else []) + r
        t = rng.random()
        if t < .1:
            body += [0x2F] * rng.randrange(1, 9)
        elif t < .25:
            body += [rng.choice([0x0F, 0x1F])] + rnd(rng, rng.choice([0, 0, 1, 2, 5]))
        if room > 200 and rng.random() < .5:        # up to the last byte there is
            free = 252 - len(h) - len(body)
            if free > 0:
                body += rng.choice([[0x2F] * free, [0x2F] * (free - 1), [0x2F] * max(0, free - 8)]) if t >= .25 or t < .1 else rnd(rng, free)
        w = wrap([hd] + h + body, rng.choice([8, 8, 0x18, 0x28, 0x38, rng.choice(CONTROLS)]), rng.choice([0, 1, 250, 251, 253, 254, 255, rng.randrange(256)]))
        if w:
            out.append(op("pkt", w))
    return out


def vary(rng, ops, p, k=1000):
    """the records of the operations again, under other descriptions and in other company"""
    out, pool = [], []
    for o in ops:
        if o.startswith("rec "):
            b = list(bytes.fromhex(o[4:].replace("-", "")))
            if not b or b[0] & 15 in (8, 15) or len(b) > 120:
                continue
            pool.append(b)
            if rng.random() < p:
                r = any_dib(rng, b[0] & 15) + b[after(b):]
                out.append(op("rec", r))
    n = max(1, len(ops) // 60000)
    if pool:
        out += company(rng, pool, k * n)
    return ops + out


# ---------------------------------------------------------------- kinds
# Records and devices chosen by kind: every kind of storage number, quantity,
# extension, value, device and neighbour as likely as any other, so that any
# two of them meet.

def number(rng, bits):
    """a number up to so many bits: small ones and every size equally likely"""
    k = rng.random()
    if k < .35:
        return 0
    if k < .6:
        return rng.randrange(1, 1 << min(bits, 2))
    b = rng.randrange(1, bits + 1)
    return rng.choice([1 << b - 1, (1 << b) - 1, rng.randrange(1 << b - 1, 1 << b), rng.randrange(1 << b - 1, 1 << b)])


def kind_dib(rng, field):
    """function, storage, tariff and subunit chosen by size, possibly a register"""
    wide = rng.random() < .3
    s, t, u = number(rng, 41 if wide else 9), number(rng, 20 if wide else 4), number(rng, 10 if wide else 2)
    d = [field | rng.randrange(4) << 4 | (s & 1) << 6]
    s >>= 1
    least = rng.choice([0, 0, 0, 0, 1, 2, rng.randrange(11)])
    while len(d) <= 10 and (s or t or u or len(d) <= least):
        d[-1] |= 0x80
        d.append(s & 15 | (t & 3) << 4 | (u & 1) << 6)
        s, t, u = s >> 4, t >> 2, u >> 1
    if len(d) < 11 and rng.random() < .2:           # the closing zero
        d[-1] |= 0x80
        d.append(0)
    return d


# quantities by name, as far as values of a name follow each other
GROUPS = [list(range(a, b)) for a, b in
          [(0, 8), (8, 16), (16, 24), (24, 32), (32, 36), (36, 40), (40, 48), (48, 56), (56, 64), (64, 72), (72, 80), (80, 88), (88, 92), (92, 96),
           (96, 100), (100, 104), (104, 108), (108, 109), (109, 110), (110, 111), (111, 112), (112, 116), (116, 120), (120, 121), (121, 122), (122, 123)]]
FB_NAMED = list(range(0, 2)) + list(range(2, 4)) + list(range(4, 6)) + [8, 9, 12, 13, 14, 15] + list(range(16, 26)) + \
    list(range(0x21, 0x30)) + [0x54, 0x56, 0x58, 0x59, 0x5A, 0x5B, 0x5C, 0x5D, 0x60, 0x61, 0x64, 0x68, 0x70, 0x71, 0x73, 0x74, 0x77, 0x78, 0x7B, 0x7F]
FD_NAMED = [v for v in range(0x70) if v not in (0x7D,)] + [0x73, 0x74, 0x75]


def kind_vib(rng, text=.04, dates=False):
    """quantity by name, extensions by number"""
    k = rng.random()
    if k < text:
        t = utext(rng, rng.choice([0, 1, 2, 3, 5, 9]))
        v, t = [0x7C, len(t)], t
    else:
        t = []
        if k < .5:
            v = [rng.choice(rng.choice(GROUPS))]
            if not dates and v[0] in (0x6C, 0x6D):
                v = [0x13]
        elif k < .54:
            v = [rng.choice([0x7E, 0x7F])]
        elif k < .7:
            v = [0xFB, rng.choice(FB_NAMED) if rng.random() < .7 else rng.randrange(128)]
        elif k < .95:
            v = [0xFD, rng.choice(FD_NAMED) if rng.random() < .8 else rng.choice([x for x in range(128) if x not in (0x72, 0x7D)])]
        else:
            v = [0xFD, 0xFD, rng.randrange(128)]
    n = rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10]) if rng.random() < .5 else 0
    if n:
        v[0 if v[0] in (0xFC, 0x7C) else -1] |= 0x80
    return v + t + vifes(rng, n)


def _by_name():
    """one entry per quantity: the ways to write it"""
    fb = [[0, 1], [2, 3], [4, 5], [8, 9], [12, 13, 14, 15], [16, 17], list(range(0x14, 0x18)), [0x18, 0x19], [0x1A, 0x1B], [0x20], [0x21], [0x22, 0x23],
          [0x24, 0x25], [0x28, 0x29], [0x2A], [0x2B], list(range(0x2C, 0x30)), [0x30, 0x31], list(range(0x34, 0x38)), list(range(0x58, 0x68)),
          [0x68], [0x69], [0x6A], [0x6B], [0x6C], [0x6D], [0x6E], list(range(0x70, 0x74)), list(range(0x74, 0x78)), list(range(0x78, 0x80)), [6, 7, 0x40, 0x50]]
    fd = [list(range(0, 4)), list(range(4, 8))] + [[v] for v in range(8, 0x24)] + [list(range(0x24, 0x28)), [0x28], [0x29], [0x2A], [0x2B], list(range(0x2C, 0x30)), [0x30],
          [0x31, 0x32, 0x33], list(range(0x34, 0x38)), [0x38], [0x39], [0x3A], [0x3B], list(range(0x3C, 0x40)), list(range(0x40, 0x50)), list(range(0x50, 0x60))] + \
        [[v] for v in range(0x60, 0x68)] + [list(range(0x68, 0x6C)), list(range(0x6C, 0x70)), [0x70], [0x71], [0x73], [0x74], [0x75], [0x76], [0x77, 0x7F, 0x7B]]
    return [[[v] for v in g if v not in (0x6C, 0x6D)] for g in GROUPS if g not in ([0x6C], [0x6D])] + [[[0x7E]], [[0x7F]]] + \
        [[[0xFB, v] for v in g] for g in fb] + [[[0xFD, v] for v in g] for g in fd] + [[[0xFD, 0xFD, v]] for v in (0, 2, 3, 9)]


NAMES = _by_name()


def each_quantity(rng, share, make):
    """records of every quantity"""
    for g in NAMES:
        if rng.random() < share:
            f, d = make()
            vb = list(rng.choice(g))
            if rng.random() < .15:
                vb[-1] |= 0x80
                vb += vifes(rng, rng.choice([1, 1, 2, 3]))
            yield op("rec", (kind_dib(rng, f) if rng.random() < .5 else [f | rng.randrange(8) << 4]) + vb + d)


def kind_int(rng, w, signed=True):
    """every order of magnitude, either sign, powers and repeated digits"""
    if w == 0:
        return []
    m = rng.randrange(1, len(str(256 ** w)) + 1)
    lo, hi = 10 ** (m - 1), 10 ** m
    k = rng.random()
    if k < .05:
        v = 0
    elif k < .1:
        v = 1
    elif k < .2:
        v = 1 << rng.randrange(8 * w)
    elif k < .25:
        v = (1 << rng.randrange(1, 8 * w + 1)) - 1
    elif k < .3:
        v = int(rng.choice("123456789") * m)
    elif k < .35:
        v = lo
    elif k < .4:
        v = hi - 1
    else:
        v = rng.randrange(lo, hi)
    if signed and rng.random() < .45:
        v = -v
    return list((v & 256 ** w - 1).to_bytes(w, "little"))


def kind_bcd(rng, w):
    """every number of digits, either sign"""
    if w == 0:
        return []
    m = rng.randrange(0, 2 * w + 1)
    s = "".join(rng.choice("0123456789") for _ in range(m))
    k = rng.random()
    if k < .1:
        s = rng.choice("123456789") * m
    elif k < .15:
        s = "1" + "0" * (m - 1) if m else ""
    elif s:
        s = rng.choice("123456789") + s[1:]
    s = s.rjust(2 * w, "0")
    if rng.random() < .35:
        s = "F" + s[1:]
    if rng.random() < .12:          # a digit that is none
        i = rng.choice([0, 2 * w - 1, rng.randrange(2 * w)])
        s = s[:i] + rng.choice("ABCDEF") + s[i + 1:]
    return list(bytes.fromhex(s))[::-1]


def kind_real(rng):
    e = rng.choice([0, 0, 1, 63, 100, 117, 120, 125, 126, 127, 128, 129, 134, 140, 150, 157, 158, 190, 200, 254, 255, 255])
    f = rng.choice([0, 0, 1, 0x3FFFFF, 0x400000, 0x400001, 0x7FFFFF, 0x200000, rng.randrange(1 << 23), rng.randrange(1 << 23)])
    return list((rng.randrange(2) << 31 | e << 23 | f).to_bytes(4, "little"))


def kind_text(rng, n):
    """text by the kinds of characters at its ends and inside"""
    kinds = [lambda: rng.randrange(32), lambda: 32, lambda: rng.randrange(48, 58), lambda: rng.randrange(65, 91), lambda: rng.randrange(97, 123),
             lambda: rng.choice(b"!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"), lambda: rng.choice([0, 9, 10, 13, 127]), lambda: rng.randrange(128, 160),
             lambda: rng.randrange(160, 256)]
    k = rng.random()
    if k < .15:
        return [rng.choice(kinds)()] * n
    if k < .3:                      # a number, as it is written
        z = rng.choice([0, 0, 1, 1, 2, 3, 8])
        t = [rng.choice([0x30, 0x30, 0x20, 0x2D, 0x2B, 0])] * min(z, n) + [rng.choice(b"0123456789" if rng.random() < .8 else b"0123456789.,-/: ABCDEFabcdef") for _ in range(n - z)]
        return t if rng.random() < .2 else t[::-1]
    mid = rng.choice(kinds) if k < .6 else lambda: rng.choice(kinds)()
    t = [mid() for _ in range(n)]
    if n and k < .8:
        t[0] = rng.choice(kinds)()
        t[-1] = rng.choice(kinds)()
    return t


def kind_lvar(rng, text=.4):
    k = rng.random()
    if k < text:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 10, 16, 20, 31, rng.choice([40, 63, 64, 100])])
        return [n] + kind_text(rng, n)
    if k < text + .25:
        n = rng.randrange(10)
        b = kind_bcd(rng, n)
        if n and b[-1] >> 4 == 15:
            b[-1] &= 15
        return [rng.choice([0xC0, 0xD0]) + n] + b
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 15, 16, 20, 24, 28, 32, rng.choice([48, 64])])
    lb = 0xE0 + n if n < 16 else {16: 0xF0, 20: 0xF1, 24: 0xF2, 28: 0xF3, 32: 0xF4, 48: 0xF5, 64: 0xF6}[n]
    b = kind_int(rng, n) if n < 9 or rng.random() < .5 else rnd(rng, n)
    if b and rng.random() < .3:
        b[0] = rng.choice([0, 1, 127, 255])
    if b and rng.random() < .3:
        b[-1] = rng.choice([0, 1, 127, 255])
    return [lb] + b


def kind_data(rng, f, lvtext=.4):
    return kind_lvar(rng, lvtext) if f == 13 else kind_real(rng) if f == 5 else kind_bcd(rng, WIDTH[f]) if f > 8 else kind_int(rng, WIDTH[f])


def kind_record(rng, fields=FIELDS, text=.04, lvtext=.4, dates=.1):
    f = rng.choice(fields)
    if dates and rng.random() < dates:
        f, vb = rng.choice([(2, [0x6C]), (4, [0x6D]), (3, [0x6D]), (6, [0x6D]), (4, [0xFD, 0x72])])
        d = valid_dst(rng) if len(vb) > 1 else valid_date(rng, WIDTH[f])
        x = vifes(rng, rng.choice([1, 1, 2, 3])) if rng.random() < .3 else []
        if x:
            vb = vb[:-1] + [vb[-1] | 0x80]
        return kind_dib(rng, f) + vb + x + d
    vb = kind_vib(rng, text)
    return kind_dib(rng, f) + vb + kind_data(rng, f, lvtext)


DEVICES = list(range(0x00, 0x40)) + [0x40, 0xFF]


def kind_header(rng, ci):
    """fields of the header by kind"""
    h = hdr_for(ci, rng)
    if len(h) == 12:
        h[0:4] = ident(rng)
        h[7] = rng.choice(DEVICES)
        if rng.random() < .5:
            h[6] = rng.choice([0, 1, 2, 3, 7, 8, 16, 31, 32, 64, 127, 128, 254, 255])
    if len(h) >= 4:
        h[-4] = rng.choice([0, 1, 2, 15, 16, 127, 128, 254, 255, rng.randrange(256), rng.randrange(256)])
        h[-3] = rng.choice([0, rng.randrange(4), 1 << rng.randrange(8), rng.randrange(256)])
    rng.ctx = h if len(h) == 12 else getattr(rng, "ctx", None)
    return h


def cover(rng, recs, tels, marks=.3, **kw):
    """records by kind, alone and among others in telegrams of every kind of device"""
    o = [op("rec", kind_record(rng, **kw)) for _ in range(recs)]
    for i in range(tels):
        ci = rng.choice([0x72, 0x72, 0x72, 0x78, 0x7A])
        h = kind_header(rng, ci)
        # mostly what is asked for, next to anything
        rs, want = [], rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        while len(rs) < want:
            k = rng.random()
            if rs and k < .3:
                r = relative(rng, rs[-1] if rng.random() < .6 else rng.choice(rs), rs)
            else:
                r = kind_record(rng, **kw) if k < .8 else kind_record(rng)
            if sum(map(len, rs)) + len(r) > 235 - len(h):
                break
            rs.append(r)
        body = sum((([0x2F] * rng.choice([1, 2, 5]) if rng.random() < .08 else []) + r for r in rs), [])
        if rng.random() < marks:
            body += rng.choice([[0x2F], [0x2F] * rng.randrange(1, 9), [0x0F] + rnd(rng, rng.choice([0, 1, 2, 7, 15])), [0x1F] + rnd(rng, rng.choice([0, 0, 1, 2, 7]))])
        w = wrap([ci] + h + body, rng.choice([8, 8, rng.choice(CONTROLS)]), rng.choice([0, 1, 250, 251, 253, 254, 255, rng.randrange(256)]))
        if w:
            o.append(op("pkt", w))
    return clean(o)


# ---------------------------------------------------------------- workloads
# each takes (rng, n) with n the size factor: 1 = quick, larger = thorough

def pump(name, k, pre, rep, suf=()):
    return op(name, list(pre) + list(rep) + list(suf), k, len(pre), len(rep))


def pumps(rng, what, n=1):
    """inputs far longer than any telegram"""
    o = []
    big, many = rng.randrange(90000, 130000), rng.randrange(9000, 14000)
    x = lambda: rng.randrange(128)
    y = lambda: rng.randrange(256)
    for _ in range(n):
        if "vib" in what:
            for head in ([0x80 | rng.randrange(0x7B)], [0xFB, 0x80 | x()], [0xFD, 0x80 | rng.randrange(0x7D)], [0xFF], [0xFC, 1, 0x41]):
                o.append(pump("pvib", big, head, [0x80 | x()], [x()]))
            o.append(pump("pvib", big, [0x93], [0x80 | x(), 0x80 | x()]))
        if "dib" in what:
            o.append(pump("pdib", big, [0x81], [0x80 | x()], [x()]))
            o.append(pump("pdib", big, [0x81], [0x80], [0]))
        if "rec" in what:
            o.append(pump("prec", big, [0x01, 0x93], [0x80 | x()], [x(), 5]))
            o.append(pump("prec", big, [0x0D, 0x93], [0x80 | x()], [x(), 2, 65, 66, 9]))
            o.append(pump("prec", big, [0x01, 0x13, 5], [y()]))
        if "frame" in what:
            for f in (0, 1, 4, 5, 12, 13):
                r = record(rng, field=f, nd=0)
                if len(r) < 24:
                    o.append(pump("pframe", many, [], r))
                    o.append(pump("pframe", many, [1, 0x13, 5], [0x2F] + r, [0x1F, 1, 2]))
                    o.append(pump("pframe", many, [], r, [0x01, 0x13]))
        if "fill" in what:
            o.append(pump("pframe", big, [], [0x2F]))
            o.append(pump("pframe", big, [1, 0x13, 5], [0x2F], [1, 0x13, 6]))
            o.append(pump("pframe", big, [1, 0x13, 5], [0x2F], [1]))
            for m in (0x0F, 0x1F):
                o.append(pump("pframe", big, [1, 0x13, 5, m], [rng.choice([0x2F, 0x0F, 0x1F, y()])]))
        if "msg" in what:
            for ci in RAW_CIS[:23] + [rng.choice(RAW_CIS[23:])]:
                o.append(pump("pmsg", many, [ci] + hdr_for(ci, rng), [y(), y()], [y()]))
        if "select" in what:
            for ci in (0x50, 0x53, 0x66):
                o.append(pump("pmsg", many, [ci] + hdr_for(ci, rng), [y()]))
        if "err" in what:
            o.append(pump("paerr", big, [rng.randrange(0xF1, 256)], [y()]))
            o.append(pump("paerr", big, [0xF0, 0x01, 0x93], [0x80 | x()], [x(), 5]))
        if "pkt" in what:
            p = packet(rng)
            o.append(pump("ppkt", many, p, [rng.choice([0, 0x16, 0xE5])]))
            o.append(pump("ppkt", many, [], p))
            for b in (0x68, 0x10, 0xE5, 0x16, 0xFF, 0):
                o.append(pump("ppkt", many, [], [b]))
    return o


def c01(rng, n):
    o = []
    cd = corpus_data()
    subs = ["msg", "frame", "rec", "shdr", "lhdr", "aerr", "asel", "dib", "vib", "f", "g", "i", "j", "k", "real", "ascii"]
    numbered = [("bcd", 9), ("ibcd", 12), ("bs", 8), ("bu", 8), ("lat1", 40)]   # documented widths
    # every first byte / first two bytes to every entry point
    for s in subs:
        o.append(op(s, []))
        for b in range(256):
            o.append(op(s, [b]))
            o.append(op(s, [b] + [rng.randrange(256) for _ in range(rng.randrange(24))]))
    for s, m in numbered:
        for k in range(m + 1):
            for fill in (0, 0x99, 0xFF, 0xF9, 0x80, 0x7F):
                for l in {0, max(0, k - 1), k, k + 1}:
                    o.append(op(s, [fill] * l, k))
            for _ in range(8 * n):
                o.append(op(s, [rng.randrange(256) for _ in range(k)], k))
    for m in range(256):
        o.append(op("man", [rng.randrange(256), m]))
    # every CI with bodies that reach every handler
    for ci in range(256):
        for body in ([], [0], [0xFF] * 12, [0x0D], LONG0, SHORT0, hdr_for(ci), hdr_for(ci) + [0x0D, 0xFF, 0xFD, 0xFF],
                     hdr_for(ci) + [0x8D] + [0xFF] * 20, hdr_for(ci, rng) + rnd(rng, 30),
                     hdr_for(ci)[:-1] + [5] if hdr_for(ci) else [5]):
            o.append(pkt([ci] + body))
            o.append(op("msg", [ci] + body))
    # every L byte, with and without its content
    for l in range(256):
        o.append(op("pkt", [0x68, l, l, 0x68, 8, 1]))
        o.append(op("pkt", [0x68, l, l, 0x68] + [0] * l + [0, 0x16]))
        o.append(op("pkt", [0x68, l, l]))
        o.append(op("part", [0x68, l, l, 0x68, 8, 1, 0x72]))
        o.append(op("prefix", [0x68, l, l, 0x68, 8, 1, 0x72, 0x16]))
        o.append(op("pkt", short(l, rng.randrange(256))))
    # every security mode in both header forms
    for hi in range(256):
        for lo in (0, 1, 0xFF, rng.randrange(256)):
            o.append(op("shdr", [1, 2, lo, hi]))
            o.append(pkt([0x72] + LONG0[:10] + [lo, hi] + [0x01, 0x13, 5]))
    # long extension chains, huge record lists
    for k in range(0, 30):
        o.append(op("dib", [0x81] + [0x80] * k + [1]))
        o.append(op("dib", [0xC1] + [0xFF] * k + [0x7F]))
        o.append(op("dib", [0xC1] + [0xFF] * k))
        o.append(op("vib", [0x93] + [0xFF] * k + [0x7F]))
        o.append(op("rec", [0xC1] + [0xFF] * k + [0x7F, 0x13, 1]))
        o.append(op("frame", [0x2F] * (k * 40)))
        o.append(op("frame", [0x01, 0x13, 0x05] * (k * 20)))
        o.append(op("frame", [0x00, 0x13] * (k * 100)))
        o.append(op("vib", [0x93] + [0x80] * (k * 60) + [0]))
    for lb in range(256):
        k = lvar_len(lb) or 0
        for fill in ([0] * k, [0xFF] * k, [0x99] * k, [0] * max(0, k - 1), []):
            o.append(op("rec", [0x0D, 0x13, lb] + fill))
        o.append(op("rec", [0x0D, 0xFD, 0x0B, lb] + [0xFF] * k))
        o.append(op("ascii", [lb] + [0xC3] * lb))
        o.append(op("ascii", [lb] + [0x41] * lb))
        o.append(op("errtxt", [rng.randrange(21) for _ in range(rng.randrange(40))], rng.randrange(2)))
    for _ in range(3500 * n):
        p = packet(rng)
        o.append(op("pkt", p))
        o.append(op("pkt", mutate(rng, p)))
        o.append(op("pkt", fix(mutate(rng, p)) or p))
    for d in cd:
        for _ in range(12 * n):
            o.append(pkt(mutate(rng, d)))
    for _ in range(300 * n):
        o.append(op("prefix", mutate(rng, packet(rng))))
        o.append(op("slice", mutate(rng, packet(rng))))
        o.append(op("loc", mutate(rng, packet(rng))))
    for _ in range(6000 * n):
        o.append(op(rng.choice(["rec", "rec", "frame", "frame", "msg", "aerr", "asel", "vib", "dib", "pkt"]),
                    [rng.randrange(256) for _ in range(rng.randrange(40))]))
        o.append(op("rec", record(rng)))
        o.append(op("rec", mutate(rng, record(rng))))
    # long units and texts, with characters of every width at every offset
    for k in range(0, 256):
        t = utext(rng, k) if k else []
        for q in (t, [0x41] * (k % 3) + [0xC3, 0xA9] * ((k - k % 3) // 2), [0x41] * (k % 4) + [0xF0, 0x9F, 0x98, 0x80] * ((k - k % 4) // 4)):
            q = q[:255]
            o.append(op("ascii", [len(q)] + q))
            o.append(op("vib", [0x7C, len(q)] + q))
            if len(q) < 220:
                o.append(pkt([0x78, 0x01, 0x7C, len(q)] + q + [5]))
    # and part of what every other property looks at
    for g in (c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24):
        l = g(rng, 1)
        o += rng.sample(l, min(len(l), 800 * n))
    return clean(o)


def c02(rng, n):
    o = envelopes(rng, n)
    # all one byte inputs, and all two byte ones after each start byte
    o.append(op("pkt", []))
    for a in range(256):
        o.append(op("pkt", [a]))
        for s in (0x68, 0x10, 0xE5, 0x16):
            o.append(op("pkt", [s, a]))
        o.append(op("pkt", [a] + short(8, 1)[1:]))
        o.append(op("pkt", [a] + wrap([0x5C])[1:]))
    # all controls and addresses in both frames
    for c in CONTROLS:
        for a in {0, 1, 0xFD, 0xFE, 0xFF, 0x16, 0x68, rng.randrange(256)}:
            o.append(op("pkt", short(c, a)))
            o.append(pkt([0x5C], c, a))
    # long frames with nothing in them
    for c in range(128):
        for a in {0, 1, 0xFD, 0xFE, 0xFF, 0x16, 0x68, rng.randrange(256)}:
            o.append(op("pkt", [0x68, 2, 2, 0x68, c, a, (c + a) & 255, 0x16]))
            if rng.random() < .3:
                o.append(op("pkt", [0x68, 3, 3, 0x68, c, a, 0x5C, (c + a + 0x5C) & 255, 0x16]))
    for a in range(256):
        o.append(op("pkt", short(rng.choice(CONTROLS), a)))
        o.append(pkt([0xA0] + rnd(rng, rng.randrange(20)), rng.choice(CONTROLS), a))
        # every checksum value, every tail value
        s = short(0x40, 0x55)
        o.append(op("pkt", s[:3] + [a, 0x16]))
        o.append(op("pkt", s[:4] + [a]))
        w = wrap([0xA1, 1, 2, 3])
        o.append(op("pkt", w[:-2] + [a, 0x16]))
        o.append(op("pkt", w[:-1] + [a]))
        o.append(op("pkt", w[:3] + [a] + w[4:]))
    # every length, right and wrong
    for l in range(2, 256):
        for _ in range(n):
            data = [0xA0 + rng.randrange(24)] + rnd(rng, l - 3) if l > 2 else []
            w = wrap(data, rng.choice(CONTROLS), rng.randrange(256))
            o.append(op("pkt", w))
            for dl in (-1, 1, rng.randrange(256)):
                o.append(op("pkt", w[:1] + [(l + dl) & 255] + w[2:]))
                o.append(op("pkt", w[:2] + [(l + dl) & 255] + w[3:]))
                o.append(op("pkt", w[:1] + [(l + dl) & 255] * 2 + w[3:]))
            o.append(op("pkt", w + [rng.choice([0, 0x16, 0xE5, rng.randrange(256)])]))
            o.append(op("pkt", w[:-1]))
            o.append(op("pkt", [rng.choice([0, 0x68, 0xE5])] + w))
            o.append(op("pkt", w[:4] + w))
    for l in range(256):
        for k in (0, 1, 2):
            body = [8, 1, 0x5C][:k]
            o.append(op("pkt", [0x68, l, l, 0x68] + body + [sum(body) & 255, 0x16]))
    # checksum that is right only for a part, or for other arithmetic
    for _ in range(1200 * n):
        p = packet(rng)
        o.append(op("pkt", p))
        q = list(p)
        if len(q) >= 5:
            k = rng.randrange(6)
            if k == 0:
                q[-2] = (q[-2] + 1) & 255
            elif k == 1:
                x = 0
                for v in q[4:-2]:
                    x ^= v
                q[-2] = x
            elif k == 2:
                q[-2] = sum(q[:-2]) & 255
            elif k == 3:
                q[-2] = sum(q[6:-2]) & 255
            elif k == 4:
                q[-2] = (-sum(q[4:-2])) & 255
            else:
                q[-2] = sum(q[4:-2]) % 255
            o.append(op("pkt", q))
        o.append(op("pkt", p + packet(rng)))
        o.append(op("pkt", mutate(rng, p)))
    for c in CONTROLS:
        for a in (0, 1, 251, 252, 253, 254, 255, rng.randrange(256)):
            for p in (short(c, a), wrap([0x51] + rnd(rng, rng.randrange(4)), c, a)):
                for i in (-1, -2, -2):
                    q = list(p)
                    q[i] = rng.choice([q[i] ^ 1 << rng.randrange(8), q[i] ^ 0xFF, 0, 0xFF, 0x16])
                    o.append(op("pkt", q))
    small = [0x68, 0x10, 0xE5, 0x16, 0x08, 0x02, 0x03, 0x01, 0x5C]
    for _ in range(3000 * n):
        o.append(op("pkt", [rng.choice(small) for _ in range(rng.randrange(12))]))
    return clean(o)


def faults(rng, p, n_sub=None):
    """all single faults of a packet (a sample of the substitutions)"""
    o = []
    for i in range(len(p)):
        vals = [v for v in range(256) if v != p[i]]
        if n_sub is not None and len(vals) > n_sub:
            near = [(p[i] + d) & 255 for d in (1, 255)] + [p[i] ^ (1 << k) for k in range(8)]
            vals = list(dict.fromkeys(near + rng.sample(vals, n_sub)))
        for v in vals:
            o.append(p[:i] + [v] + p[i + 1:])
        o.append(p[:i] + p[i + 1:])
        o.append(p[:i])
    for i in range(len(p) + 1):
        ins = {0x68, 0x10, 0xE5, 0x16, 0, 0xFF, 1, rng.randrange(256)}
        if i < len(p):
            ins.add(p[i])
        for v in ins:
            o.append(p[:i] + [v] + p[i:])
    for v in range(256):
        o.append(p + [v])
    for k in (2, 3, 5):
        o.append(p + rnd(rng, k))
    return o


def envelopes(rng, n):
    """frames of every size, to every kind of address, with one byte of the envelope replaced by what it might be taken for"""
    o = []
    for a in (0, 1, 0xFD, 0xFE, 0xFF):
        for size in (0, 1, 2, 6, 18, 90):
            for _ in range(n):
                c = rng.choice(CONTROLS)
                ci = rng.choice([0x5C, 0x52, 0x54, 0x51, 0xB8, 0xA1, 0x90, 0x71] if size == 1 else [0x52, 0x51, 0xA1, 0x90, 0x71])
                p = wrap([ci] + rnd(rng, size - 1), c, a) if size else short(c, a)
                o.append(op("pkt", p))
                for i in (0, 1, 2, 3, len(p) - 2, len(p) - 1):
                    v = p[i]
                    for w in {0x68, 0x10, 0x16, 0xE5, 0, 0xFF, v ^ 0xFF, (v + 1) & 255, (v - 1) & 255, (v >> 4 | v << 4) & 255, (-v) & 255, c, a, ci} | \
                            {v ^ 1 << k for k in range(8)}:
                        if w != v:
                            o.append(op("pkt", p[:i] + [w] + p[i + 1:]))
    return o


def c03(rng, n):
    o = envelopes(rng, n)
    fixed = [[0xE5], short(0x40, 0x01), short(0x10 ^ 0x6B, 0x10), wrap([0x5C]), wrap([0xA0]),
             wrap([0x72] + LONG0 + [0x04, 0x13, 1, 2, 3, 4]),
             wrap([0x68] * 0) if False else wrap([0x51, 0x10, 0x16, 0xE5, 0x68, 0x10])]
    for p in fixed:
        for q in faults(rng, p, None if n > 1 else 48):
            o.append(op("pkt", q))
        o.append(op("pkt", p))
    # frames made of the structure's own byte values
    for l, fill in ((0x68, 0x68), (0x16, 0x16), (0x10, 0x10)):
        p = [0x68, l, l, 0x68, 0x68, fill] + [0xA0 if fill != 0x68 else 0x68] * 0
        data = [0xA8] + [fill] * (l - 3)
        p = wrap(data, 0x68, fill)
        for q in faults(rng, p, 2):
            o.append(op("pkt", q))
    # every length of the data: each end, and some of the positions between
    # (a byte that the checksum does not cover shows when it is changed from zero)
    for l in list(range(2, 256)) * 2:
        p = wrap([0xA0 + rng.randrange(24)] + rng.choice([rnd(rng, l - 3), [0] * (l - 3)]) if l > 2 else [],
                 rng.choice(CONTROLS), rng.choice([0, rng.randrange(256)]))
        o.append(op("pkt", p))
        for i in {4, 5, 6, len(p) - 3, len(p) - 4, len(p) - 2} | {rng.randrange(len(p)) for _ in range(6 * n)}:
            if i < len(p):
                o.append(op("pkt", p[:i] + [p[i] ^ (1 << rng.randrange(8))] + p[i + 1:]))
                o.append(op("pkt", p[:i] + [rng.randrange(256)] + p[i + 1:]))
                o.append(op("pkt", p[:i] + p[i + 1:]))
        o.append(op("pkt", p[:6 + rng.randrange(l)]))
    # every checksum there can be
    for cs in range(256):
        c, a = rng.choice(CONTROLS), rng.choice([0, 1, 253, 254, 255, rng.randrange(256)])
        d = rng.choice([[0x51], [0xA5], [0x52, 1, 2, 3, 4, 0xFF, 0xFF, 0xFF], [0x74, 7, 0, 0, 0], [0x71, 9], [0xC1] + SHORT0]) + rnd(rng, rng.randrange(6))
        for p in (short(c, (cs - c) & 255), wrap(d + [(cs - c - a - sum(d)) & 255], c, a)):
            m = len(p)
            o.append(op("pkt", p))
            for i in [m - 1] * 4 + [m - 2] * 4 + [0, 1, 2, 3, m - 3, rng.randrange(m), rng.randrange(m)]:
                q = list(p)
                q[i] = rng.choice([(q[i] + 1) & 255, (q[i] - 1) & 255, q[i] ^ 1 << rng.randrange(8), 0, 0xFF, 0x16, 0x68, rng.randrange(256)])
                o.append(op("pkt", q))
            for i in (m - 1, m - 2, rng.randrange(m)):
                o.append(op("pkt", p[:i] + p[i + 1:]))
                o.append(op("pkt", p[:i] + [rng.choice([0x16, p[i], rng.randrange(256)])] + p[i:]))
            o.append(op("pkt", p + [rng.choice([0x16, 0xE5, 0, rng.randrange(256)])]))
            o.append(op("pkt", p[:rng.randrange(m)]))
    for l in (0x7F, 0x80, 0x81, 0xF9, 0xFA, 0xFC, 0xFE, 0xFF):
        p = wrap([0xB1] + [0] * (l - 3), 0x08, 0)
        for i in range(len(p)):
            o.append(op("pkt", p[:i] + [p[i] ^ (1 << rng.randrange(8))] + p[i + 1:]))
            o.append(op("pkt", p[:i] + [(p[i] + rng.randrange(1, 256)) & 255] + p[i + 1:]))
    for _ in range(12 * n):
        p = packet(rng)
        if len(p) > 120:
            continue
        for q in faults(rng, p, 8):
            o.append(op("pkt", q))
    cs = [p for p in corpus() if 6 < len(p) <= 262]
    for p in rng.sample(cs, min(len(cs), 4 * n)):
        for q in faults(rng, p, 2):
            o.append(op("pkt", q))
    return clean(o)


def c04(rng, n):
    o = [op("prefix", p) for p in corpus()]
    for c in CONTROLS:
        for a in {0, 1, 0xFD, 0xFE, 0xFF, 0x10, 0x16, 0x68, 0xE5, rng.randrange(256), (0x16 - c) & 255, (-c) & 255}:
            o.append(op("prefix", short(c, a)))
            if rng.random() < .4:
                o.append(op("prefix", wrap([rng.choice([0x5C, 0xA0, 0xB8, 0x52])], c, a)))
    for l in range(2, 256):
        w = wrap([0xA0] + rnd(rng, l - 3) if l > 2 else [], rng.choice(CONTROLS), rng.randrange(256))
        o.append(op("prefix", w))
        o.append(op("prefix", w + [rng.choice([0x16, 0x68, 0xE5, rng.randrange(256)])]))
    for b in range(256):
        o.append(op("prefix", [b, 0x16, 0x16]))
        o.append(op("prefix", [0xE5, b]))
        o.append(op("prefix", short(8, 1) + [b]))
        o.append(op("prefix", [0x10, b, 1, (b + 1) & 255, 0x16]))
        o.append(op("prefix", [0x68, b, b, 0x68, 8, 1, 0x5C, (9 + 0x5C) & 255, 0x16]))
        o.append(op("prefix", [0x68, 3, b, 0x68, 8, 1, 0x5C, (9 + 0x5C) & 255, 0x16]))
    for _ in range(350 * n):
        p = packet(rng)
        o.append(op("prefix", p))
        o.append(op("prefix", p + rnd(rng, rng.randrange(1, 5))))
        o.append(op("prefix", p + packet(rng)[:12]))
        m = mutate(rng, p)
        o.append(op("prefix", m))
        f = fix(mutate(rng, p))
        if f:
            o.append(op("prefix", f))
        q = list(p)
        if len(q) > 4:
            q[-2] ^= 1 << rng.randrange(8)
            o.append(op("prefix", q))
            q = list(p)
            q[-1] = rng.randrange(256)
            o.append(op("prefix", q))
    return clean(o)


def c05(rng, n):
    o = []
    for c in range(256):
        for a in range(256) if n > 1 else {0, 1, 0xFE, 0xFF, 0x16, rng.randrange(256), rng.randrange(256)}:
            o.append(op("pkt", short(c, a)))
        for data in ([0x5C], [0x72] + LONG0, [0x52, 1, 2], [0xB8], telegram_data(rng)[:200], telegram_data(rng)[:200]):
            o.append(pkt(data, c, rng.randrange(256)))
            o.append(pkt(data, c, rng.randrange(256), "slice"))
        for ci in range(256):
            if rng.random() < (.25 if n == 1 else 1) and c < 128:
                body = rng.choice([[], [0], [1, 0x13, 5], rnd(rng, 5)])
                o.append(pkt([ci] + hdr_for(ci, rng) + body, c, rng.choice([0, 1, 0xFD, 0xFE, 0xFF, rng.randrange(256)])))
        o.append(op("loc", short(c, rng.randrange(256))))
        # a control byte that is wrong only together with a wrong rest
        o.append(op("pkt", [0x10, c, 0, c, 0x16]))
    # every valid control byte with every address, in both frames
    for c in CONTROLS:
        for a in range(256):
            o.append(op("pkt", short(c, a)))
            if n > 1 or rng.random() < .3 or a in (0, 1, 251, 252, 253, 254, 255):
                ci = rng.choice([0x51, 0x52, 0x5C, 0x50, 0x70, 0x78, 0x72, 0xB8, 0xA0, 0x66])
                body = {0x66: [0x10], 0x78: [0x01, 0x13, 5], 0x50: rnd(rng, 1)[:rng.randrange(2)] and [0x20]}.get(ci, [])
                o.append(pkt([ci] + hdr_for(ci, rng) + body, c, a))
    # every kind of message under every control byte to every kind of address
    for c in CONTROLS:
        for ci in (0x50, 0x51, 0x52, 0x53, 0x54, 0x5A, 0x5B, 0x5C, 0x5F, 0x60, 0x61, 0x66, 0x68, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x72, 0x74,
                   0x75, 0x78, 0x7A, 0x80, 0x8A, 0x8C, 0x90, 0xA0, 0xB7, 0xB8, 0xBB, 0xC0, 0xC4, 0x05):
            for a in (0, 1, 0xFD, 0xFE, 0xFF) if n > 1 else rng.sample((0, 1, 0xFD, 0xFD, 0xFE, 0xFE, 0xFF), 3):
                if ci in (0x50, 0x53, 0x66, 0x68):
                    body = rng.choice([[], [0x10], [0xF1, 0x23]])[ci > 0x60:] or [0x20]
                elif ci in (0x6E, 0x6F, 0x70):
                    body = rng.choice([[], [8], [0xF0, 1, 0x13, 5], [0xF1, 1, 2]])
                elif ci in (0x72, 0x78, 0x7A):
                    body = rng.choice([[], [1, 0x13, 5], [0x0F, 1, 2], [1, 0x13, 5, 0x1F]])
                else:
                    body = rnd(rng, rng.choice([0, 1, 2, 8, 9, 16, 40]))
                o.append(pkt([ci] + hdr_for(ci, rng) + body, c, a))
    return clean(o)


def c06(rng, n):
    o = []
    for ci in range(256):
        bodies = [[], [0], [1, 2, 3], [0xFF], [0] * 4, [0] * 12, [0] * 13, SHORT0, SHORT0[:3], SHORT0 + [0], SHORT0 + [1, 0x13, 7],
                  LONG0, LONG0[:11], LONG0 + [0], LONG0 + [1, 0x13, 7], LONG0 + [0xFF] * 3, [1, 0x13, 7], [0xF0, 1, 0x13, 7],
                  SHORT0 + [0xF0, 1, 0x13, 7], LONG0 + [0xF1, 1, 0x13, 7], [0x0F, 1, 2], [0x0F, 9], [0x10], [0x03] * 12]
        for b in bodies:
            o.append(op("msg", [ci] + b))
        for _ in range(14 * n):
            b = rng.choice([hdr_for(ci, rng), hdr_for(ci, rng), long_hdr(rng), short_hdr(rng), []])
            t = rng.choice([[], record(rng), rnd(rng, rng.randrange(12)), [rng.randrange(256)]])
            o.append(pkt([ci] + b + t, rng.choice(CONTROLS), rng.randrange(256)))
        for k in range(0, 14):
            o.append(op("msg", [ci] + [0] * k))
        for c in CONTROLS:
            if rng.random() < (.3 if n == 1 else 1):
                o.append(pkt([ci] + hdr_for(ci, rng) + rng.choice([[], [0], [1, 0x13, 5], [0x11]]), c, rng.choice([0, 1, 0xFD, 0xFE, 0xFF, rng.randrange(256)])))
    o.append(op("msg", []))
    return clean(o)


def c07(rng, n):
    o = []
    for b in range(256):
        o.append(op("shdr", [b, rng.randrange(256), 0, 0]))
        o.append(op("shdr", [rng.randrange(256), b, 0, 0]))
        for c in (0, 0xFF, b, 0x55):
            o.append(op("shdr", [c, b, 0, 0x10]))
        for i in range(12):
            for base in (LONG0, long_hdr(rng)):
                h = list(base)
                h[i] = b
                o.append(op("lhdr", h + [rng.randrange(256)]))
        o.append(pkt([0x72] + LONG0[:9] + [b] + [0, 0]))
        o.append(pkt([0x7A, rng.randrange(256), b, 0, 0, 1, 0x13, 5]))
        o.append(pkt([0x72] + LONG0[:7] + [b] + LONG0[8:]))
    for i in range(8):
        for d in range(16):
            h = list(LONG0)
            h[i // 2] = (h[i // 2] & 0xF0 | d) if i % 2 == 0 else (h[i // 2] & 15 | d << 4)
            o.append(op("lhdr", h))
            for z in ([0, 0, 0, 0], [0x99] * 4):
                h = list(LONG0)
                h[0:4] = z
                h[i // 2] = (h[i // 2] & 0xF0 | d) if i % 2 == 0 else (h[i // 2] & 15 | d << 4)
                o.append(op("lhdr", h))
    step = 1 if n > 1 else 7
    off = rng.randrange(step)
    for code in range(off, 65536, step):
        h = list(LONG0)
        h[4:6] = [code & 255, code >> 8]
        o.append(op("lhdr", h))
    for _ in range(2500 * n):
        o.append(op("lhdr", long_hdr(rng)))
        o.append(op("lhdr", mutate(rng, long_hdr(rng))))
        ci = rng.choice(sorted(HDR_LONG | HDR_SHORT))
        o.append(pkt([ci] + hdr_for(ci, rng) + rng.choice([[], record(rng)])))
    # any two bytes of the header special together
    for i in range(12):
        for j in range(i):
            for a in SPECIAL:
                for b in SPECIAL:
                    if rng.random() < (.3 if n == 1 else 1):
                        h = long_hdr(rng)
                        h[i], h[j] = a, b
                        o.append(op("lhdr", h))
    # all fields extreme together
    for _ in range(2500 * n):
        h = (rng.choice([[0] * 4, [0x99] * 4, [1, 0, 0, 0], ident(rng)]) + rng.choice([man("AAA"), man("ZZZ"), man(rng.choice(NAMED)), long_hdr1(rng)[4:6]])
             + [rng.choice([0, 0xFF, 1, rng.randrange(256)]), rng.choice([0, 0xFF, 0x0F, rng.choice(TYPES)]), rng.choice([0, 0xFF, 1, rng.randrange(256)]),
                rng.choice([0, 0xFF, 1 << rng.randrange(8), rng.randrange(256)])] + rng.choice([[0, 0], [0, 0], [0, 0x10], [0xFF, 0xFF], [rng.randrange(256), 0x1F]]))
        o.append(op("lhdr", h))
        if rng.random() < .3:
            o.append(op("shdr", h[8:]))
    for k in range(13):
        o.append(op("lhdr", LONG0[:k]))
        o.append(op("shdr", SHORT0[:k]))
    return clean(o)


def c08(rng, n):
    o = []
    for v in range(65536):
        if n > 1 or v < 256 or v % 256 == 0 or v % 256 == 255 or (v >> 8) % 32 in (0, 5) or (v * 40503 + rng.randrange(1)) % 4 == 0:
            o.append(op("shdr", [v >> 8 ^ 0x33, v & 0x7F, v & 255, v >> 8]))
    ALLCI = sorted(HDR_LONG | HDR_SHORT)
    for hi in range(256):
        for lo in (0, 1, 0x80, rng.randrange(256)):
            h = long_hdr(rng)
            o.append(op("lhdr", h[:10] + [lo, hi]))
            ci = rng.choice(ALLCI)
            h = hdr_for(ci, rng)
            o.append(pkt([ci] + h[:-2] + [lo, hi] + rng.choice([[], [0], [1, 0x13, 5]])))
            for ci in (0x72, 0x7A):
                o.append(pkt([ci] + hdr_for(ci)[:-2] + [lo, hi] + rng.choice([[], [1, 0x13, 5], [0x2F, 0x2F, 1, 0x13, 5]])))
    for ci in ALLCI:
        for hi in range(64):
            o.append(pkt([ci] + hdr_for(ci, rng)[:-2] + [rng.choice([0, 0, rng.randrange(256)]), hi]))
    # together with extreme values of the bytes before
    for a in (0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)):
        for st in (0, 1, 3, 0x1C, 0xE0, 0xFF, rng.randrange(256)):
            for mode in range(32):
                for lo, hi in ((0, 0), (0xFF, 7), (1, 0), (0, 1), (0x10, 0), (rng.randrange(256), rng.randrange(8))):
                    o.append(op("shdr", [a, st, lo, mode | hi << 5]))
                o.append(op("lhdr", long_hdr(rng)[:8] + [a, st, rng.choice([0, 0xFF]), mode | rng.choice([0, 0, 7]) << 5]))
    # and for every type of device
    for ty in range(256):
        for mode in range(32):
            if rng.random() < (.3 if n == 1 else 1):
                h = long_hdr(rng)
                h[7], h[10], h[11] = ty, rng.choice([0, 0, 0x10, 0xFF, rng.randrange(256)]), mode | rng.choice([0, 0, 4, 7]) << 5
                o.append(op("lhdr", h))
    return clean(o)


def c09(rng, n):
    o = []
    # every field with every kind of quantity, alone and between neighbours
    for f in FIELDS:
        for _ in range(60 * n):
            r = record(rng, field=f)
            o.append(op("rec", r))
            o.append(op("rec", r + rnd(rng, rng.randrange(1, 5))))
            a, b = record(rng), record(rng)
            if len(a) + len(r) + len(b) < 220:
                o.append(op("frame", a + r + b))
                o.append(op("frame", r))
                o.append(op("frame", b + r))
        for v in range(128):
            for vb in ([v], [0x80 | v, 0x22], [0xFB, v], [0xFD, v], [0xFD, 0xFD, v]):
                if vb in ([0xFD, 0x7D], [0x7C], [0xFC, 0x22]):
                    continue
                if len(vb) > 1 and rng.random() > .5 * n:
                    continue
                o.append(op("rec", [f] + vb + data_for(rng, f, vb)))
        for vb in DATE_VIFS:
            for _ in range(12 * n):
                r = record(rng, field=f, vb=vb)
                o.append(op("frame", record(rng, allow_text=False) + r + [0x01, 0x13, 0x2A]))
                o.append(op("rec", r + [1, 2, 3]))
    for _ in range(900 * n):
        rs = records(rng, rng.randrange(1, 9))
        o.append(pkt(resp(sum(rs, []), rng, rng.choice([0x72, 0x78, 0x7A]))))
        o.append(op("frame", sum(rs, [])))
        for r in rs:
            o.append(op("rec", r))
    for _ in range(150 * n):
        rs = small_records(rng, rng.choice([10, 20, 40, 100]))
        o.append(pkt(resp(sum(rs, []), rng, rng.choice([0x72, 0x78, 0x7A]))))
        o.append(op("frame", sum(rs, [])))
        r = rng.choice(rs)
        o.append(op("frame", r * (1 + rng.randrange(230 // len(r)))))
    for lb in range(256):
        k = lvar_len(lb)
        if k is None:
            continue
        o.append(op("frame", ([0x0D, 0x13, lb] + bcd(rng, k, False) + [0x01, 0x13, 0x2A])))
    for d in corpus_data():
        o.append(pkt(d))
    for f in FIELDS:
        o += each_quantity(rng, .6, lambda: (f, kind_data(rng, f)))
    return vary(rng, clean(o), .3) + cover(rng, 5000 * n, 900 * n)


def c10(rng, n):
    o = []
    mk = [0x0F, 0x1F, 0x2F]
    for k in range(0, 60):
        o.append(op("frame", [0x2F] * k))
        for m in (0x0F, 0x1F):
            o.append(op("frame", [0x2F] * k + [m]))
            o.append(op("frame", [m] + [0x2F] * k))
            o.append(op("frame", [0x01, 0x13, 5] + [0x2F] * k + [m] + rnd(rng, k)))
    for _ in range(1500 * n):
        body = []
        for r in records(rng, rng.randrange(4), 160):
            body += [0x2F] * rng.choice([0, 0, 1, 2, 7]) + r
        body += [0x2F] * rng.choice([0, 0, 1, 4])
        body += rng.choice([[], [0x0F], [0x1F]])
        if body and body[-1] in (0x0F, 0x1F):
            body += rnd(rng, rng.randrange(12))
        o.append(op("frame", body))
        o.append(pkt(resp(body, rng, rng.choice([0x72, 0x78, 0x7A]))))
    for _ in range(120 * n):
        body = []
        for r in small_records(rng, rng.choice([5, 20, 60]), 120):
            body += [0x2F] * rng.choice([0, 0, 0, 1, 2]) + r
        body += [0x2F] * rng.choice([0, 1, 5, 30]) + rng.choice([[], [0x0F], [0x1F]])
        if body[-1] in (0x0F, 0x1F):
            body += rnd(rng, rng.randrange(60))
        o.append(pkt(resp(body, rng, rng.choice([0x72, 0x78, 0x7A]))))
        o.append(op("frame", body))
    for b in ends(rng, 1):
        o.append(op("frame", [rng.choice([0x0F, 0x1F])] + b))
        o.append(op("frame", [0x01, 0x13, 5, 0x2F, rng.choice([0x0F, 0x1F])] + b))
    for k in range(0, 236, 5):
        o.append(pkt(resp([0x0F] + rnd(rng, k), rng, 0x78)))
        o.append(pkt(resp([0x01, 0x13, 5, 0x1F] + rnd(rng, k), rng, 0x78)))
    pool = [record(rng) for _ in range(300)]
    o += company(rng, pool, 400 * n)
    # frames whose records end at, or just before, the last byte there can be
    for ci in (0x72, 0x78, 0x7A):
        h = hdr_for(ci, rng)
        for free in range(0, 14):
            body = []
            while len(body) + 3 <= 252 - len(h) - free:
                body += [0x01, 0x13, rng.randrange(256)]
            for tail in ([], [0x2F], [0x2F, 0x2F], [0x1F], [0x0F], [0x1F, 1], [0x0F, 0x1F]):
                o.append(pkt([ci] + h + body + tail))
    for k in (60, 100, 150, 200, 235):
        o.append(pkt(resp([0x2F] * k + [0x01, 0x13, 5], None, 0x78)))
        o.append(pkt(resp([0x01, 0x13, 5, 0x1F] + [0x2F] * k, None, 0x78)))
        o.append(pkt(resp([0x0F] + rnd(rng, k), None, 0x78)))
    # the marker values as data, units, extension and length bytes
    for m in mk + [0x3F, 0x4F, 0x8F, 0x7F, 0xFF, 0x6F, 0xAF]:
        for f in FIELDS:
            if f == 13:
                o.append(op("frame", [0x0D, 0x13, m] + [m] * m + [0x01, 0x13, m] if m <= 0xBF else [0x0D, 0x13, 1, m]))
            else:
                o.append(op("frame", [f, 0x13] + [m] * WIDTH[f] + [0x01, 0x13, m, 0x1F, m]))
                o.append(op("frame", [f, 0x13] + [m] * WIDTH[f] + [m]))
                o.append(op("frame", [f, m & 0x7F] + [m] * WIDTH[f] + [0x2F, 0x01, 0x13, m, 0x0F, m]))
        o.append(op("frame", [m, 0x13, 1]))
        o.append(op("frame", [0x81, m & 0x7F, 0x13, m]))
        o.append(op("frame", [0x01, 0x93, m & 0x7F, m, m]))
        o.append(op("frame", [0x01, 0x7C, 2, m & 0x7F, m & 0x7F, m]))
        for a in range(256):
            o.append(op("frame", [a, m, m, m, m, m]))
            o.append(op("frame", [m, a, m, a]))
    for a in range(256):
        o.append(op("frame", [a]))
        o.append(op("frame", [0x2F, a]))
        o.append(op("frame", [0x01, 0x13, 0x05, a]))
        o.append(op("frame", [0x1F, a, 0x2F, 0x0F]))
        o.append(op("frame", [0x0F, a, 0x2F, 0x1F]))
    o += cover(rng, 0, 2500 * n, marks=.8)
    return clean(o)


def c11(rng, n):
    o = []
    V = [0x13]
    for dif in range(128):
        o.append(op("dib", [dif]))
        o.append(op("rec", [dif] + V + [1] * 8))
        for d in range(128) if n > 1 else rng.sample(range(128), 24):
            o.append(op("dib", [dif | 0x80, d]))
    for d in range(256):
        for dif in (0x81, 0xC1, 0xB1):
            o.append(op("dib", [dif, d, 0x01]))
            o.append(op("dib", [dif, d | 0x80, rng.randrange(128)]))
    # one bit at a time, at every position and chain length
    for k in range(1, 12):
        for pos in range(k):
            for bit in range(7):
                ch = [0x80] * k
                ch[pos] |= 1 << bit
                ch[-1] &= 0x7F
                o.append(op("dib", [0x84] + ch))
                o.append(op("rec", [0xC4] + ch + V + [1, 2, 3, 4]))
                ch = [0xFF] * k
                ch[pos] &= 0xFF ^ (1 << bit)
                ch[-1] &= 0x7F
                o.append(op("dib", [0x84] + ch))
        for last in (0, 1, 0x10, 0x40, 0x7F, 0x80):
            o.append(op("dib", [0x84] + [0x80] * (k - 1) + [last]))
            o.append(op("dib", [0xC4] + [0xFF] * (k - 1) + [last]))
    for _ in range(4000 * n):
        nd = rng.randrange(0, 12)
        ch = difes(rng, nd)
        if rng.random() < .2 and ch:
            ch[-1] = 0
        dif = rng.choice([1, 2, 4]) | (rng.randrange(8) << 4) | (0x80 if ch else 0)
        o.append(op("dib", [dif] + ch + rnd(rng, rng.randrange(3))))
        r = [dif] + ch + V + [7] * WIDTH[dif & 15]
        o.append(op("rec", r))
        if rng.random() < .3:
            o.append(pkt(resp(r + [0x42, 0x13, 1, 2] + r, rng)))
    o += [op("rec", record(rng)) for _ in range(400)]
    return vary(rng, clean(o), .02, 900) + cover(rng, 9000 * n, 1500 * n)


def c12(rng, n):
    o = []
    for v in range(256):
        for tail in ([], [0], [0x22], [0x7F], [0x80, 0], [0x3A, 1, 2], [1, 0x41]):
            o.append(op("vib", [v] + tail))
        for f in FIELDS:
            vb = [v] if v < 128 else [v, rng.randrange(127)]
            if v & 0x7F == 0x7C:
                vb = [v, 1, 0x41] + vb[1:]
            for _ in range(2 * n):
                o.append(op("rec", [f] + vb + data_for(rng, f, vb)))
            o.append(pkt(resp([0x01, 0x13, 5] + [f] + vb + data_for(rng, f, vb) + [0x02, 0x05, 1, 0], rng)))
    for _ in range(1500 * n):
        v = rng.randrange(0x7B)
        ext = vifes(rng, rng.randrange(1, 12))
        o.append(op("vib", [v | 0x80] + ext + rnd(rng, 2)))
    # every quantity from every type of device, now and stored
    for ty in range(256) if n > 1 else TYPES + rng.sample(range(256), 8):
        recs = []
        for stored in (0, 0x40):
            for g in NAMES:
                vb = list(rng.choice(g))
                f = 4 if vb[-1] == 0x6D or vb == [0xFD, 0x72] else 2 if vb == [0x6C] else rng.choice([1, 2, 4, 10, 12, 1, 0])
                recs.append([f | stored | rng.choice([0, 0, 0, 0, 1, 2, 3]) << 4] + vb + data_for(rng, f, vb))
        rng.shuffle(recs)
        while recs:
            h = long_hdr(rng)
            h[7] = ty
            body = []
            while recs and len(body) < 190:
                body += recs.pop()
            o.append(pkt([0x72] + h + body))
    for f in FIELDS:
        for _ in range(2):
            o += each_quantity(rng, .6, lambda: (f, kind_data(rng, f)))
    return vary(rng, clean(o), .6) + cover(rng, 9000 * n, 1500 * n)


def c13(rng, n):
    o = []
    for pre in ([0xFB], [0xFD], [0xFD, 0xFD], [0x7B], [0x7D], [0xFD, 0x7D], [0xFB, 0xFB], [0xFB, 0xFD], [0xFD, 0xFB]):
        o.append(op("vib", pre))
        for v in range(256):
            o.append(op("vib", pre + [v]))
            o.append(op("vib", pre + [v, rng.randrange(128)]))
            o.append(op("vib", pre + [v, 0x80 | rng.randrange(128), rng.randrange(128), 1, 2]))
            o.append(op("vib", pre + [v, 0x80 | rng.randrange(128)]))
            for f in rng.sample(FIELDS, 3 * n if 3 * n < 14 else 14):
                vb = pre + ([v] if v < 128 else [v] + vifes(rng, rng.randrange(1, 4)))
                o.append(op("rec", [f] + vb + data_for(rng, f, vb if len(vb) > 1 else vb + [0])))
    # every quantity with every extension, every extension with every other
    for a in range(128):
        for b in range(128):
            if a not in (0x7C,):
                o.append(op("vib", [0x80 | a, b] if a not in (0x7B, 0x7D) else [0x80 | a, 0x80 | b, rng.randrange(128)]))
            if rng.random() < (.4 if n == 1 else 1):
                o.append(op("vib", [rng.choice([0xFB, 0xFD]), 0x80 | a, b] if a != 0x7D else [0xFD, 0xFD, 0x80 | b, a]))
            if rng.random() < (.4 if n == 1 else 1):
                o.append(op("vib", [0x80 | rng.randrange(0x7B), 0x80 | a, b]))
    for k in range(0, 40):
        for head in ([0x93], [0xFB, 0x80], [0xFD, 0x88], [0xFD, 0xFD, 0x82], [0xFF], [0xFE], [0xFC, 1, 0x41]):
            o.append(op("vib", head + vifes(rng, k)))
            o.append(op("vib", head + vifes(rng, k) + [0x80, 0xFF]))
            o.append(op("rec", [0x01] + head + vifes(rng, k) + [7]))
            ch = [0x80 | rng.randrange(128) for _ in range(k)]
            o.append(op("vib", head + ch))
            o.append(op("rec", [0x01] + head + ch))
    for _ in range(2000 * n):
        vb = vib(rng)
        o.append(op("vib", vb + rnd(rng, rng.randrange(3))))
        o.append(op("rec", record(rng, field=rng.choice(FIELDS), vb=vb)))
        if rng.random() < .3:
            o.append(pkt(resp(record(rng, vb=vb, nd=0) + [0x01, 0x13, 5], rng)))
    for f in FIELDS:
        for _ in range(2):
            o += each_quantity(rng, .6, lambda: (f, kind_data(rng, f)))
    # chains that repeat themselves, in front of every kind of data
    def chains():
        a, b = rng.randrange(128), rng.randrange(128)
        c = rng.choice([[a], [a, a], [a, b], [a, a, a], [a, a, b], [a, b, b], [a, b, a], [a, b, a, b], [a, a, b, b], [a] * rng.randrange(4, 9), [0, 0, a], [a, 0, 0],
                        [0x7F, a], [0x7D, a], [0x7B, a, a], [a, 0x7C], [a, b, 0x7F, b, a]])
        return [x | 0x80 for x in c[:-1]] + c[-1:]
    for head in ([0x93], [0xFB, 0x81], [0xFD, 0x88], [0xFC, 1, 0x41]):
        for _ in range(2 * n):
            for f in FIELDS:
                if f != 13:
                    o.append(op("rec", kind_dib(rng, f) + head + chains() + kind_data(rng, f)))
            for v in list(range(0xC0, 0xCA)) + list(range(0xD0, 0xDA)) + list(range(0xE0, 0xF7)) + [0, 1, 2, 5, 20]:
                m = v if v < 0xC0 else v & 15 if v < 0xF0 else [16, 20, 24, 28, 32, 48, 64][v & 15]
                d = bcd(rng, m, False) if 0xC0 <= v < 0xE0 and m else rnd(rng, m)
                o.append(op("rec", kind_dib(rng, 13) + head + chains() + [v] + d))
    return vary(rng, clean(o), .4) + cover(rng, 9000 * n, 1200 * n)


SIGNED_VIBS = [[0x13], [0x05], [0xFD, 0x14], [0xFB, 0x00], [0x7F], [0x7E], [0xFD, 0x17], [0xFD, 0x1A], [0x78], [0xFD, 0x74 - 0x20],
               [0x93, 0x22], [0xFD, 0xFD, 0x00], [0xFD, 0x72], [0x6C], [0x6D], [0xFD, 0x71], [0xFD, 0x61], [0xFB, 0x2C]]
UNSIGNED_VIBS = [[0xFD, 0x08], [0xFD, 0x0B], [0xFD, 0x0C], [0xFD, 0x0F], [0xFD, 0x16], [0xFD, 0x18], [0xFD, 0x19], [0xFD, 0x1C], [0xFD, 0x20],
                 [0xFD, 0x2B], [0xFD, 0x2C], [0xFD, 0x31], [0xFD, 0x36], [0xFD, 0x63], [0xFD, 0x75], [0xFB, 0x1A], [0xFB, 0x68],
                 [0xFD, 0xFD, 0x02], [0xFD, 0x8B, 0x01], [0xFD, 0xFD, 0x83, 0x01]]


def edge_ints(rng, n, k):
    """byte strings of length n around sign and width boundaries"""
    out = [[0] * n, [0xFF] * n, [0] * (n - 1) + [0x80], [0xFF] * (n - 1) + [0x7F], [1] + [0] * (n - 1),
           [0xFF] + [0] * (n - 1), [0] * (n - 1) + [1], [0] * (n - 1) + [0xFF], [0xFE] + [0xFF] * (n - 1), [0xFF] * (n - 1) + [0x80],
           [i + 1 for i in range(n)], [0x80] * n, [0x7F] * n, [0] * (n - 1) + [0x7F]]
    for i in range(n):
        for v in (1, 0x80, 0xFF):
            b = [0] * n
            b[i] = v
            out.append(b)
            b = [0xFF] * n
            b[i] = 0xFF ^ v
            out.append(b)
    for _ in range(k):
        out.append([rng.randrange(256) for _ in range(n)])
    return out


def c14(rng, n):
    o = []
    for f in (0, 1, 2, 3, 4, 5, 6, 7):
        w = WIDTH[f]
        for vb in SIGNED_VIBS + UNSIGNED_VIBS:
            for b in edge_ints(rng, w, 10 * n) if w else [[]]:
                if vb == [0x6C] and f == 2 or vb == [0x6D] and f in (3, 4, 6) or vb == [0xFD, 0x72] and f == 4:
                    continue
                o.append(op("rec", [f | rng.randrange(8) << 4] + vb + b + ([0x2A] if rng.random() < .3 else [])))
        # classification of every quantity
        for v in range(128):
            for vb in ([v], [0xFB, v], [0xFD, v], [0xFD, 0xFD, v]):
                if vb in ([0x7C], [0x6C], [0x6D], [0xFD, 0x72], [0xFD, 0x7D]):
                    continue
                if w and rng.random() < (.35 if n == 1 else 1):
                    d = rng.choice(edge_ints(rng, w, 2)[:14])
                    o.append(op("rec", [f | rng.choice([0, 0, rng.randrange(8) << 4])] + vb + d))
                if f in (2, 6, 7) or rng.random() < .3:
                    o.append(op("rec", [f] + vb + [0xFF] * (w - 1) + [0xFE] if w else [f] + vb))
    for w in range(0, 9):
        for b in edge_ints(rng, w, 20 * n) if w else [[]]:
            o.append(op("bs", b + [7], w))
            o.append(op("bu", b, w))
        o.append(op("bs", [1] * max(0, w - 1), w))
    for b in edge_ints(rng, 4, 200 * n) + [[0, 0, 0x80, 0x7F], [0, 0, 0x80, 0xFF], [1, 0, 0x80, 0x7F], [0, 0, 0xC0, 0x7F], [1, 2, 0xC3, 0xFF], [9, 0, 0xA0, 0xFF], [0xFF, 0xFF, 0xFF, 0x7F], [0, 0, 0, 0x80],
                                           [1, 0, 0, 0], [0xFF, 0xFF, 0x7F, 0x7F], [0xFF, 0xFF, 0x7F, 0], [0, 0, 0x80, 0x3F]]:
        o.append(op("real", b))
        o.append(op("rec", [5, 0x13] + b))
        o.append(op("rec", [5, 0xFD, 0x0B] + b))
    for _ in range(1500 * n):
        f = rng.choice([1, 2, 3, 4, 5, 6, 7])
        vb = rng.choice(SIGNED_VIBS[:12] + UNSIGNED_VIBS)
        r = [f] + vb + [rng.randrange(256) for _ in range(WIDTH[f])]
        o.append(op("rec", r))
        if rng.random() < .3:
            o.append(pkt(resp(r + [0x01, 0x13, 5], rng)))
    # the values that mean something elsewhere, for any quantity
    for f in (1, 2, 3, 4, 6, 7):
        w = WIDTH[f]
        for d in ([0] * w, [0xFF] * w, [0] * (w - 1) + [0x80], [0xFF] * (w - 1) + [0x7F], [1] + [0] * (w - 1), [0xFE] + [0xFF] * (w - 1),
                  [0xFF] * (w - 1) + [0], [0] * (w - 1) + [0xFF], [0x0F] * w, [0x80] * w):
            for _ in range(60 * n):
                o.append(op("rec", [f | rng.randrange(8) << 4] + quantity(rng) + d))
    # every quantity in every width with every kind of value
    for f in (1, 2, 3, 4, 6, 7):
        w = WIDTH[f]
        top = [0] * (w - 1)
        for d in ([0] * w, [0xFF] * w, top + [0x80], [0xFF] * (w - 1) + [0x7F], [1] + top, top + [rng.randrange(128, 256)], None, None, None):
            o += each_quantity(rng, 1, lambda: (f, d or kind_int(rng, w)))
    for _ in range(12):
        o += each_quantity(rng, 1, lambda: (5, kind_real(rng)))
    return vary(rng, clean(o), .2) + cover(rng, 10000 * n, 1200 * n, fields=[1, 2, 3, 4, 5, 6, 7], dates=0)


def c15(rng, n):
    o = []
    for f in (9, 10, 11, 12, 14):
        w = WIDTH[f]
        vbs = [[0x13], [0xFD, 0x0B], [0x78], [0x6C], [0x6D], [0xFD, 0x72], [0x7F]]
        for pos in range(2 * w):
            for d in range(16):
                for base in ([0] * w, [0x99] * w, bcd(rng, w, False), bcd(rng, w, True), [0x21, 0x43, 0x65, 0x87, 0x09, 0x21][:w]):
                    b = list(base)
                    b[pos // 2] = (b[pos // 2] & 0xF0 | d) if pos % 2 == 0 else (b[pos // 2] & 15 | d << 4)
                    o.append(op("rec", [f] + rng.choice(vbs) + b))
                    o.append(op("bcd", b, w))
                    o.append(op("ibcd", b, w))
        for d in ([0] * w, [0x99] * w, [0] * (w - 1) + [0xF0], [0xFF] * w, [0xEE] * w, [0xAA] * w, [0] * (w - 1) + [0xFF], [1] + [0] * (w - 1),
                  [0x99] * (w - 1) + [0xF9], [0] * (w - 1) + [0x90], [0x0F] + [0] * (w - 1), [0xBB] * w, [0xDD] * w):
            for _ in range(40 * n):
                o.append(op("rec", [f | rng.randrange(8) << 4] + quantity(rng) + d))
        for _ in range(500 * n):
            b = bcd(rng, w)
            o.append(op("rec", [f | rng.randrange(8) << 4] + quantity(rng) + b))
            o.append(op("rec", [f | rng.randrange(8) << 4] + rng.choice(vbs) + b))
            b = [rng.randrange(256) for _ in range(w)]
            o.append(op("rec", [f] + rng.choice(vbs) + b + [1]))
            b = [rng.choice([0xFF, 0xF0, 0x0F, 0xAF, 0xEE, 0xDD, 0xBC, 0x9F, 0xF9]) for _ in range(w)]
            o.append(op("rec", [f] + rng.choice(vbs) + b))
            o.append(pkt(resp([f, 0x13] + bcd(rng, w) + [f, 0x05] + b, rng)))
    for b in range(256):
        o.append(op("rec", [9, 0x13, b]))
        o.append(op("rec", [10, 0x13, rng.randrange(256), b]))
        o.append(op("rec", [10, 0x13, b, rng.randrange(256)]))
    for w in range(0, 10):
        for _ in range(60 * n):
            o.append(op("bcd", bcd(rng, w), w))
            o.append(op("ibcd", [rng.randrange(256) for _ in range(w)], w))
        o.append(op("bcd", [0x99] * w, w))
        if w:
            o.append(op("bcd", [0x99] * (w - 1) + [0xF9], w))
            o.append(op("bcd", [0x99] * (w - 1), w))
            o.append(op("ibcd", [0x99] * (w - 1), w))
    # every quantity in every width with every digit too many, in every place
    for f in (9, 10, 11, 12, 14):
        w = WIDTH[f]
        def flagged(hi, where):
            b = bcd(rng, w, False)
            i = {0: 2 * w - 1, 1: 0}.get(where, rng.randrange(2 * w))
            b[i // 2] = b[i // 2] & 0xF0 | hi if i % 2 == 0 else b[i // 2] & 15 | hi << 4
            return f, b
        for hi in range(10, 16):
            o += each_quantity(rng, 1, lambda: flagged(hi, 0))
            for where in (1, 2):
                o += each_quantity(rng, .5, lambda: flagged(hi, where))
        for _ in range(3):
            o += each_quantity(rng, 1, lambda: (f, kind_bcd(rng, w)))
    return vary(rng, clean(o), .4) + cover(rng, 8000 * n, 1200 * n, fields=[9, 10, 11, 12, 14], dates=0)


def c16(rng, n):
    o = []
    vbs = [[0x13], [0xFD, 0x0B], [0x6D], [0xFD, 0x10], [0x7F]]
    for lb in range(256):
        k = lvar_len(lb)
        kk = k if k is not None else 8
        fills = [[0] * kk, [0xFF] * kk, [0x99] * kk, [0x12] * kk, [0x80] * kk, [0] * max(0, kk - 1) + [0x80][:kk],
                 [0] * max(0, kk - 1) + [0xF0][:kk], bcd(rng, kk, False), bcd(rng, kk, True), [rng.randrange(256) for _ in range(kk)],
                 [1] + [0] * (kk - 1) if kk else []]
        for fi in fills:
            for vb in vbs if n > 1 else rng.sample(vbs, 2):
                o.append(op("rec", [0x0D | rng.randrange(8) << 4] + vb + [lb] + fi))
        for fi in fills:
            o.append(op("rec", [0x0D | rng.randrange(8) << 4] + quantity(rng) + [lb] + fi))
        o.append(op("rec", [0x0D, 0x13, lb] + fills[9] + [1, 2, 3]))
        if k:
            for cut in {0, k - 1, k // 2}:
                o.append(op("rec", [0x0D, 0x13, lb] + [0x11] * cut))
                o.append(pkt(resp([0x0D, 0x13, lb] + [0x11] * cut)))
        o.append(pkt(resp([0x01, 0x13, 5, 0x0D, 0x13, lb] + bcd(rng, kk, False) + [0x01, 0x13, 6])))
    for lb in list(range(0xC0, 0xCA)) + list(range(0xD0, 0xDA)):
        k = lvar_len(lb)
        for pos in range(2 * k):
            for d in (0, 1, 9, 10, 14, 15):
                for base in ([0] * k, bcd(rng, k, False)):
                    b = list(base)
                    b[pos // 2] = (b[pos // 2] & 0xF0 | d) if pos % 2 == 0 else (b[pos // 2] & 15 | d << 4)
                    o.append(op("rec", [0x0D, 0x13, lb] + b))
        for _ in range(30 * n):
            o.append(op("rec", [0x0D, 0x13, lb] + bcd(rng, k)))
    for lb in range(0xE0, 0xE9):
        for b in edge_ints(rng, lb - 0xE0, 10 * n) if lb > 0xE0 else [[]]:
            o.append(op("rec", [0x0D, 0x13, lb] + b))
            o.append(op("rec", [0x0D, 0xFD, 0x0B, lb] + b))
    for lb in list(range(0xE9, 0xF7)):
        for b in ends(rng, .1):
            k = lvar_len(lb) or 70
            o.append(op("rec", [0x0D, 0x13, lb] + (b[:2] + [rng.randrange(256) for _ in range(k)])[:k - 2] + b[-2:]))
        for _ in range(12 * n):
            o.append(op("rec", [0x0D] + rng.choice(vbs) + [lb] + rnd(rng, lvar_len(lb) or 70)))
    # every quantity with every length byte of a number
    for lb in list(range(0xC0, 0xCA)) + list(range(0xD0, 0xDA)) + list(range(0xE0, 0xF7)):
        k = lvar_len(lb)
        o += each_quantity(rng, 1, lambda: (13, [lb] + (kind_bcd(rng, k) if lb < 0xE0 else kind_int(rng, k) if k < 9 or rng.random() < .3 else rnd(rng, k))))
    for k in (0, 1, 2, 3, 4, 8, 16, 30, 100, 0xBF):
        o += each_quantity(rng, .5, lambda: (13, [k] + kind_text(rng, k)))
    return vary(rng, clean(o), .4) + cover(rng, 9000 * n, 1500 * n, fields=[13], dates=0)


def c17(rng, n):
    o = []
    for b in range(256):
        o.append(op("lat1", [b], 1))
        o.append(op("rec", [0x0D, 0x13, 3, b, 0x41, 0x42]))
        o.append(op("rec", [0x0D, 0x13, 3, 0x41, 0x42, b]))
        o.append(op("rec", [0x0D, 0x13, 3, 0x41, b, 0x42]))
        o.append(op("lat1", [rng.randrange(256) for _ in range(7)], 7))
        o.append(op("ascii", [2, b, 0x41]))
        o.append(op("ascii", [1, b]))
        o.append(op("ascii", [3, 0x41, b, 0xB0]))
        for c in (0x80, 0xBF, 0x7F, 0xC0, 0xA0, 0x9F, 0x90, 0x8F):
            o.append(op("ascii", [4, b, c, 0x80, 0x80]))
            o.append(op("ascii", [3, b, c, 0x80]))
            o.append(op("ascii", [2, b, c]))
    # byte order marks and other sequences a text library may act on
    for pre in ([0xEF, 0xBB, 0xBF], [0xFF, 0xFE], [0xFE, 0xFF], [0, 0, 0xFE, 0xFF], [0xFF, 0xFE, 0, 0], [0x2B, 0x2F, 0x76], [0x1B, 0x24, 0x42],
                [0, 0, 0], [13, 10], [0xC2, 0xB0], [0xE2, 0x82, 0xAC], [0xBF, 0xBB, 0xEF]):
        for tail in ([], [0x41], [0x41, 0x42, 0x43, 0x44, 0x45]):
            t = pre + tail
            o.append(op("rec", [0x0D, 0x13, len(t)] + t))
            o.append(op("rec", [0x0D, 0x13, len(t)] + t[::-1]))
            o.append(op("lat1", t, len(t)))
            o.append(op("ascii", [len(t)] + t))
            o.append(op("rec", [0x01, 0x7C, len(t)] + t + [5]))
    blank = [0, 9, 10, 13, 0x20, 0x22, 0x27, 0x5C, 0x7F, 0x80, 0x81, 0x85, 0xA0, 0xAD, 0xFF, 0x41]
    for a in blank:
        for b in blank:
            for t in ([a, b], [a, 0x41, b], [0x42, a, b, 0x43], [a, b, 0x44, 0x45], [0x46, 0x47, a, b]):
                o.append(op("rec", [0x0D, 0x13, len(t)] + t))
                o.append(op("ascii", [len(t)] + t))
    for a in blank:
        for k in (1, 2, 3, 8, 20):
            o.append(op("rec", [0x0D, 0x13, k] + [a] * k))
            o.append(op("rec", [0x01, 0x7C, k] + [a & 127] * k + [5]))
            o.append(op("rec", [0x0D, 0x13, k + 1, 0x41] + [a] * k))
            r = [0x0D | rng.randrange(8) << 4] + rng.choice([[0x13], [0x78], [0xFD, 0x0C], [0xFD, 0x10], [0x7F]]) + [k] + [a] * k
            x = record(rng, nd=0)
            for body in (r, x + r, r + x, x + r + x, r + r, r + [0x2F] * 3, x + r + [0x2F], x + r + [0x1F]):
                o.append(pkt(resp(body, rng, rng.choice([0x72, 0x78, 0x7A]))))
    for k in (0, 1, 2, 3, 4, 5, 8, 16):
        for _ in range(120 * n):
            o.append(op("rec", [0x0D | rng.randrange(8) << 4] + quantity(rng) + [k] + rnd(rng, k)))
    for k in range(0, 0xC0):
        for _ in range(2 * n):
            o.append(op("rec", [0x0D, 0x13, k] + rnd(rng, k)))
            o.append(op("lat1", rnd(rng, k), k))
        o.append(op("rec", [0x0D, 0x13, k] + [0x80 + (i % 32) for i in range(k)] + [0x41]))
        if k:
            o.append(op("lat1", [0x41] * (k - 1), k))
    for k in range(0, 256):
        t = [rng.randrange(0x20, 0x7F) for _ in range(k)]
        o.append(op("ascii", [k] + t + [9]))
        o.append(op("ascii", [k] + t[:-1]))
        if k < 200:
            o.append(op("rec", [0x01, 0x7C, k] + t + [5]))
            o.append(op("rec", [0x01, 0xFC, k] + t + vifes(rng, rng.randrange(1, 3)) + [5]))
            o.append(pkt(resp([0x01, 0x7C, k] + t + [5, 0x01, 0x13, 6])))
    for _ in range(1200 * n):
        t = utext(rng, rng.randrange(0, 30))
        o.append(op("ascii", [len(t)] + t))
        o.append(op("rec", [0x02, 0x7C, len(t)] + t + [1, 2]))
        t2 = mutate(rng, t)
        o.append(op("ascii", [len(t2) & 255] + t2))
        o.append(op("rec", [0x0D, 0x13, min(len(t2), 0xBF)] + t2))
    for k in (0, 1, 1, 2, 2, 3, 4, 4, 5, 8, 10, 16, 20, 32, 64):
        for _ in range(2):
            o += each_quantity(rng, 1, lambda: (13, [k] + kind_text(rng, k)))
    return vary(rng, clean(o), .5) + cover(rng, 8000 * n, 1500 * n, fields=[13], lvtext=1, text=.1, dates=0)


def c18(rng, n):
    o = []
    heads = [[0x6C], [0x6D], [0xFD, 0x72], [0xEC, 0x01], [0xED, 0x7F], [0xFD, 0xF2, 0x22], [0xEC, 0x80, 0x00], [0xED, 0x82, 0x01],
             [0xFD, 0x30], [0xFD, 0x70], [0x6E], [0x13], [0xFB, 0x72], [0xFB, 0x6C], [0xFD, 0x6D], [0xFD, 0xFD, 0x72]]
    for vb in heads:
        for f in list(range(16)):
            for _ in range(12 * n):
                dif = f | rng.randrange(8) << 4
                if f in (8, 15):
                    d = rnd(rng, 4)
                elif f == 13:
                    d = data_for(rng, 13, vb)
                else:
                    k = rng.random()
                    d = data_for(rng, f, vb) if k < .6 else valid_date(rng, WIDTH[f]) if k < .8 else rnd(rng, WIDTH[f])
                nd = difes(rng, rng.choice([0, 0, 1, 3]))
                if nd:
                    dif |= 0x80
                r = [dif] + nd + vb + d
                o.append(op("rec", r))
                o.append(op("frame", [0x01, 0x13, 7] + r + [0x02, 0x05, 1, 2]))
    for lb in range(256):
        k = lvar_len(lb)
        if k is not None:
            for vb in ([0x6D], [0x6C], [0xFD, 0x72]):
                o.append(op("rec", [0x0D] + vb + [lb] + bcd(rng, k, False)))
                o.append(op("rec", [0x0D] + vb + [lb] + rnd(rng, k)))
    for _ in range(800 * n):
        o.append(op("rec", record(rng, vb=rng.choice(heads))))
        o.append(pkt(resp(record(rng, vb=rng.choice(heads), nd=0) + record(rng, vb=[0x13], nd=0), rng)))
    return vary(rng, clean(o), .5) + cover(rng, 3000 * n, 800 * n, dates=.5)


def c19(rng, n):
    o = []
    step = 1 if n > 1 else 5
    off = rng.randrange(step)
    for v in range(off, 65536, step):
        o.append(op("g", [v & 255, v >> 8]))
    kinds = {"f": 4, "g": 2, "i": 6, "j": 3, "k": 4}
    for name, w in kinds.items():
        mk = (lambda: valid_dst(rng)) if name == "k" else (lambda w=w: valid_date(rng, w))
        for i in range(w):
            for v in range(256):
                for _ in range(3 * n if name != "g" else n):
                    b = mk()
                    b[i] = v
                    o.append(op(name, b))
        for _ in range(1200 * n):
            o.append(op(name, mk() + rnd(rng, rng.randrange(2))))
            b = mk()
            for _ in range(2):
                b[rng.randrange(w)] = rng.randrange(256)
            o.append(op(name, b))
        for fill in (0, 0xFF, 0x7F, 0x80, 0x3F, 0x1F, 0x11):
            o.append(op(name, [fill] * w))
            o.append(op(name, [fill] * (w - 1)))
            for i in range(w):
                b = mk()
                b[i] = fill
                o.append(op(name, b))
                b = [fill] * w
                b[i] = 0x11
                o.append(op(name, b))
    # all-ones date inside the longer forms
    for _ in range(60):
        a = valid_date(rng, 4)
        o.append(op("f", a[:2] + [0xFF, 0xFF]))
        a = valid_date(rng, 6)
        o.append(op("i", a[:3] + [0xFF, 0xFF] + a[5:]))
    for y in range(128):
        for hy in range(4):
            o.append(op("f", [1, 2 | hy << 5, 5 | (y & 7) << 5, 3 | (y >> 3) << 4]))
        o.append(op("g", [5 | (y & 7) << 5, 3 | (y >> 3) << 4]))
    for _ in range(700 * n):
        o.append(op("rec", [0x02, 0x6C] + valid_date(rng, 2)))
        o.append(op("rec", [0x04, 0x6D] + valid_date(rng, 4)))
        o.append(op("rec", [0x03, 0x6D] + valid_date(rng, 3)))
        o.append(op("rec", [0x06, 0x6D] + valid_date(rng, 6)))
        o.append(op("rec", [0x04, 0xFD, 0x72] + valid_dst(rng)))
        f, vb, w = rng.choice([(2, [0x6C], 2), (4, [0x6D], 4), (3, [0x6D], 3), (6, [0x6D], 6), (4, [0xFD, 0x72], 4)])
        o.append(op("rec", [f] + vb + [rng.randrange(256) for _ in range(w)]))
        o.append(pkt(resp([f] + vb + (valid_dst(rng) if f == 4 and len(vb) > 1 else valid_date(rng, w)) + [1, 0x13, 5], rng)))
    # every form under every description
    for f, vb in ((2, [0x6C]), (4, [0x6D]), (3, [0x6D]), (6, [0x6D]), (4, [0xFD, 0x72])):
        for k in range(1200):
            d = valid_dst(rng) if len(vb) > 1 else valid_date(rng, WIDTH[f])
            if k % 8 == 0:
                i = rng.randrange(len(d))
                d[i] = rng.choice([0, 0xFF, 0x1F, 0x3F, 0x80, d[i] ^ 0x80, d[i] ^ 0x20])
            o.append(op("rec", kind_dib(rng, f) + vb + d))
    return vary(rng, clean(o), .3) + cover(rng, 7000 * n, 1500 * n, dates=1)


def c20(rng, n):
    o = []
    cis = [0x50, 0x53, 0x66, 0x67, 0x68, 0x54, 0x55]
    for b in range(256):
        o.append(op("asel", [b]))
        for ci in cis:
            o.append(op("msg", [ci] + hdr_for(ci, rng) + [b]))
        for c in range(256) if n > 1 else rng.sample(range(256), 14) + [0, 0xF0, 0xFF, 0x0F]:
            o.append(op("asel", [b, c]))
            if rng.random() < .1:
                o.append(op("asel", [c, b, 0x0F]))
    for k in range(0, 14):
        for fill in (0x00, 0x0F, 0x10, 0xF0, 0xFF, 0x21, 0x15):
            o.append(op("asel", [fill] * k))
            for ci in cis:
                o.append(op("msg", [ci] + hdr_for(ci, rng) + [fill] * k))
                o.append(pkt([ci] + hdr_for(ci, rng) + [fill] * k))
        for code in list(range(0, 50)):
            # spread a code over k bytes
            if k == 0:
                continue
            his = []
            left = code
            for _ in range(k):
                t = min(15, left) if rng.random() < .6 else rng.randrange(0, min(15, left) + 1)
                his.append(t)
                left -= t
            for perm in range(2):
                rng.shuffle(his)
                o.append(op("asel", [h << 4 | rng.randrange(16) for h in his]))
    # a sum that is reached on the way
    for code in range(0, 61):
        for k in range(1, 10):
            for _ in range(2 * n):
                left, his = code, []
                for i in range(k):
                    t = min(left, 14) if i == k - 1 else rng.randrange(max(0, left - 14 * (k - 1 - i)), min(14, left) + 1) if left <= 14 * (k - i) else 14
                    his.append(t)
                    left -= t
                rng.shuffle(his)
                his += [rng.choice([0, 1, rng.randrange(16), 15]) for _ in range(rng.randrange(1, 11 - k))]
                o.append(op("asel", [h << 4 | rng.randrange(16) for h in his]))
    for _ in range(1500 * n):
        k = rng.randrange(0, 12)
        b = [rng.choice([0, 0, 1, 2, 15, rng.randrange(16)]) << 4 | rng.randrange(16) for _ in range(k)]
        o.append(op("asel", b))
        ci = rng.choice(cis)
        o.append(pkt([ci] + hdr_for(ci, rng) + b))
    return clean(o)


def c21(rng, n):
    o = []
    cis = [0x6E, 0x6F, 0x70]
    for ci in cis:
        o.append(op("msg", [ci] + hdr_for(ci, rng)))
        for c in range(256):
            for body in ([], [0], [0x01, 0x13, 5], rnd(rng, rng.randrange(1, 20))):
                o.append(op("msg", [ci] + hdr_for(ci, rng) + [c] + body))
            o.append(pkt([ci] + hdr_for(ci, rng) + [c] + rnd(rng, rng.randrange(6))))
    o.append(op("aerr", []))
    for c in range(256):
        o.append(op("aerr", [c]))
        o.append(op("aerr", [c] + rnd(rng, 12)))
        o.append(op("aerr", [0xF0, c]))
        o.append(op("aerr", [0xF0, c, 0x13, 1, 2, 3, 4, 5, 6, 7, 8]))
        for k in (1, 5, 60):
            o.append(op("aerr", [0xF0 | c & 15 or 0xF1] + [c] * k))
        o.append(op("aerr", [rng.randrange(0xF1, 256)] + [rng.randrange(256) for _ in range(c)]))
        ci = rng.choice(cis)
        o.append(pkt([ci] + hdr_for(ci, rng) + [rng.randrange(0xF1, 256)] + rnd(rng, min(c, 238))))
        o.append(pkt([ci] + hdr_for(ci, rng) + [c] + [0] * min(rng.randrange(240), 238)))
    for b in ends(rng, 1):
        o.append(op("aerr", [rng.randrange(0xF1, 256)] + b))
    for _ in range(1500 * n):
        r = record(rng)
        o.append(op("aerr", [0xF0] + r))
        o.append(op("aerr", [0xF0] + r[:rng.randrange(len(r) + 1)]))
        o.append(op("aerr", [0xF0] + mutate(rng, r)))
        ci = rng.choice(cis)
        o.append(pkt([ci] + hdr_for(ci, rng) + [0xF0] + r))
        o.append(pkt([ci] + hdr_for(ci, rng) + [rng.randrange(0xF1, 256)] + rnd(rng, rng.randrange(40))))
        o.append(op("aerr", [0xF0] + kind_record(rng) + (rnd(rng, rng.randrange(6)) if rng.random() < .3 else [])))
        o.append(pkt([ci] + kind_header(rng, ci) + rng.choice([[0xF0] + kind_record(rng), [rng.randrange(0xF1, 256)] + rnd(rng, rng.randrange(20)),
                                                              [rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 17, 18, 19, 20, 21, 22, 32, 33, 34])] + rnd(rng, rng.choice([0, 0, 1, 2, 9]))])))
    return clean(o)


NAMED = ["ABB", "ACW", "AMT", "BEC", "EFE", "ELS", "ELV", "EMH", "EMU", "GAV", "GMC", "KAM", "SLB", "HYD", "JAN", "LUG", "LSE", "NZR",
         "RAM", "REL", "RKE", "SBC", "SEO", "GTE", "SEN", "SON", "SPX", "SVM", "TCH", "WZG", "ZRM"]


def lhdr_for(m, ver, ty, id4=0x12, tail=(0x55, 0, 0, 0), idb=(0x78, 0x56, 0x34)):
    return list(idb) + [id4] + (man(m) if isinstance(m, str) else m) + [ver, ty] + list(tail)


def c22(rng, n):
    o = []
    step = 1 if n > 1 else 4
    off = rng.randrange(step)
    for code in range(off, 65536, step):
        o.append(op("man", [code & 255, code >> 8]))
    types = [0x02, 0x06, 0x07, 0x0F, 0x00, 0x04, 0x16, 0x28]
    for m in NAMED:
        for v in range(256):
            ts = types if n > 1 else [types[(v + k) % 3] if k == 0 else rng.choice(types) for k in range(2)]
            for t in dict.fromkeys(ts):
                o.append(op("lhdr", lhdr_for(m, v, t)))
        for v in range(100):
            b = (v // 10) * 16 + v % 10
            o.append(op("lhdr", lhdr_for(m, rng.choice([0x10, 0x30, rng.randrange(256)]), rng.choice(types), id4=b)))
        for t in range(256):
            o.append(op("lhdr", lhdr_for(m, rng.choice([0, 7, 9, 0x10, 0x2D, 0x39, 0x40, 0x71, 2]), t)))
        # the name depends on nothing else
        for _ in range(6 * n):
            o.append(op("lhdr", lhdr_for(m, rng.choice([0, 1, 2, 3, 8, 9, 10, 0x10, 0x20, 0x28, 0x2F]), 2, id4=bcd(rng, 1, False)[0],
                                         tail=long_hdr(rng)[8:], idb=bcd(rng, 3, False))))
        a = man(m)
        for d in (1, 32, 1024, -1):
            v = a[0] + 256 * a[1] + d
            o.append(op("lhdr", lhdr_for([v & 255, v >> 8 & 255], 2, 2)))
        o.append(op("lhdr", lhdr_for([a[0], a[1] | 0x80], 2, 2)))
        o.append(op("lhdr", lhdr_for([a[1], a[0]], 2, 2)))
        o.append(op("lhdr", lhdr_for(m[::-1], 2, 2)))
        o.append(pkt([0x72] + lhdr_for(m, rng.choice([1, 2, 8, 9]), 2)))
    # every row of the table with every device type
    for m, v in KNOWN:
        for t in list(range(0x41)) + [0xFF]:
            h = lhdr_for(m, v, t)
            if m in ("SBC", "SEO", "GTE", "SLB") and v & 15 < 10 and v >> 4 < 10 and t & 1:
                h[3] = v
            o.append(op("lhdr", h))
    # a known device with special values everywhere else
    for m, v in KNOWN:
        for _ in range(120 * n):
            h = lhdr_for(m, v, rng.choice([2, 2, 4, 7, 6, 3, 0, rng.choice(TYPES)]))
            h[0:4] = ident(rng)
            if m in ("SBC", "SEO", "GTE", "SLB") and rng.random() < .7 and v & 15 < 10 and v >> 4 < 10:
                h[3] = v
            h[8] = rng.choice([0, 0, 1, 0xFF, rng.randrange(256)])
            h[9] = rng.choice([0, 0, 4, 8, 0x10, 0xE0, 0xFF, rng.randrange(256)])
            h[10:12] = rng.choice([[0, 0], [0, 0], [0, 0], [0xFF, 0x1F], [0, 6], [rng.randrange(256), 16]])
            o.append(op("lhdr", h) if rng.random() < .6 else pkt([rng.choice([0x72, 0x72, 0x75, 0x6F, 0x68, 0x5B])] + h + rng.choice([[], [1], [0xF0, 1, 0x13, 5], [0x11]]),
                     rng.choice(CONTROLS), rng.choice([0, 1, 250, 253, 254, 255, rng.randrange(256)])))
    return clean(o)


def c23(rng, n):
    o = []
    cd = [d for d in corpus_data() if d[0] in (0x72, 0x78, 0x7A)]
    for d in rng.sample(cd, min(len(cd), 12 * n)):
        for k in range(len(d)):
            o.append(pkt(d[:k]))
    for _ in range(220 * n):
        ci = rng.choice([0x72, 0x78, 0x7A])
        d = resp(sum(records(rng, rng.randrange(1, 6), 90), []), rng, ci)
        for k in range(len(d) + 1):
            o.append(pkt(d[:k]))
        for _ in range(4):
            o.append(pkt(mutate(rng, d)))
    for _ in range(12 * n):
        d = resp(sum(small_records(rng, 80), []), rng, rng.choice([0x72, 0x78, 0x7A]))
        for k in range(rng.randrange(3), len(d) + 1, 3):
            o.append(pkt(d[:k]))
    # what is there of a cut unit or text, whatever it is
    for u in [list(x.encode()) for x in UNITS] + [[c, rng.choice([0x20, 0x41, 0x64, c])] for c in range(256)]:
        for f in (lambda m: [rng.choice([0x00, 0x00, 0x01, 0x40]), 0x7C, m], lambda m: [0x00, 0xFC, m], lambda m: [0x0D, rng.choice([0x13, 0x78, 0xFD]), m] if m else [0x0D, 0x13, m]):
            a = sum(records(rng, rng.randrange(3), 60), [])
            m = len(u) + rng.choice([1, 1, 2, 3, 10, 100])
            b = f(m)
            if b[1] == 0xFD:
                b = [b[0], 0xFD, 0x11, m]
            o.append(rng.choice([lambda d: op("frame", d), lambda d: pkt(resp(d, rng))])(a + b + u))
    # every width, with any part of it there
    sized = [(0x0D, [lb], lvar_len(lb)) for lb in list(range(0xC0, 0xCA)) + list(range(0xD0, 0xDA)) + list(range(0xE0, 0xF7))]
    sized += [(0x0D, [k], k) for k in rng.sample(range(1, 0xC0), 30)] + [(f, [], WIDTH[f]) for f in FIELDS if f not in (0, 13)] * 3
    for f, lb, w in sized:
        for k in range(w) if w <= 64 and lb[:1] > [0xBF] else rng.sample(range(w), min(w, 4)):
            a = sum(records(rng, rng.choice([0, 1, 2]), 60), [])
            b = [f | 16 * rng.choice([0, 0, 1, 2, 3])] + rng.choice([[0x13], [0x13], [0x78], [0x6E], [0x93, 0x22], [0xFD, 0x17], [rng.randrange(0x6C)]]) + lb
            d = (bcd(rng, w, False) if f > 8 and f != 13 or lb and 0xC0 <= lb[0] < 0xE0 else rng.choice([rnd(rng, w), [0] * w]))[:k]
            o.append(rng.choice([lambda d: op("frame", d), lambda d: pkt(resp(d, rng))])(a + b + d))
    # a bad record at the end, in the middle, at the start of good ones
    bad = [[0x08, 0x13, 1], [0x0F + 0x30, 0x13, 1], [0x02, 0x6C, 0xFF, 0xFF], [0x04, 0x6D, 0x80, 0, 0x11, 0x11], [0x06, 0x6D, 0, 0x80, 1, 0x11, 0x11, 1], [0x0D, 0x13, 0xCA, 1],
           [0x0D, 0x13, 0xFF], [0x0D, 0x13, 0xC1, 0xAB], [0x01, 0xFD, 0x7D, 1], [0x01, 0x7C, 1, 0xFF, 1], [0x04, 0x13, 1, 2, 3], [0x01], [0x81],
           [0x01, 0x93], [0x01, 0xFD], [0x01, 0xFD, 0xFD], [0x0D, 0x13], [0x0D, 0x13, 5, 1, 2], [0x01, 0x7C, 4, 0x41], [0x0C, 0x13, 1, 2, 3],
           [0x81] + [0x80] * 10 + [1, 0x13, 5], [0x03, 0x6D, 0xFF, 0xFF, 0xFF], [0x04, 0xFD, 0x72, 0, 0, 0, 0]]
    for b in bad:
        for _ in range(8 * n):
            a, c = sum(records(rng, rng.randrange(4), 90), []), sum(records(rng, rng.randrange(2), 60), [])
            o.append(op("frame", a + b))
            o.append(op("frame", a + b + c))
            o.append(op("frame", b + a))
            o.append(pkt(resp(a + [0x2F] + b, rng)))
            o.append(op("frame", a + [0x0F] + b))
            o.append(op("frame", a + b + [0x2F] * 8))
    o += company(rng, [record(rng) for _ in range(200)] + [b for b in bad if b[0] & 15 not in (8, 15)], 300 * n)
    o += cover(rng, 2000 * n, 1200 * n)
    return clean(o)


RAW_CIS = [0x52, 0x51, 0x5A, 0x5B, 0x6C, 0x6D, 0x71, 0x74, 0x75, 0x90, 0x5F, 0x9E, 0x9F, 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5,
           0x60, 0x61, 0x7C, 0x7D] + list(range(0, 0x20)) + list(range(0xA0, 0xB8))


def c24(rng, n):
    o = []
    for ci in RAW_CIS:
        h = hdr_for(ci, rng)
        for k in (0, 1, 2, 3, 4, 12, 13, 100):
            o.append(op("msg", [ci] + h + rnd(rng, k)))
        for fill in range(0, 256, 1 if n > 1 else 5):
            o.append(op("msg", [ci] + h + [fill]))
            o.append(pkt([ci] + hdr_for(ci, rng) + [fill] * rng.randrange(0, 20)))
        for _ in range(12 * n):
            b = rnd(rng, rng.randrange(0, 235))
            o.append(pkt([ci] + h + b))
        o.append(pkt([ci] + h + [i & 255 for i in range(240)][:253 - len(h) - 1]))
        o.append(op("msg", [ci] + h + rnd(rng, 900)))
        # every length with something repeated at its end or start
        if ci in RAW_CIS[:23] or n > 1:
            for k in range(1, 26):
                for fill in (0, 0xFF, 0x2F):
                    for t in {1, 2, rng.choice([3, 4, k])}:
                        b = rnd(rng, k)
                        if rng.random() < .8:
                            b[max(0, k - t):] = [fill] * min(t, k)
                        else:
                            b[:t] = [fill] * min(t, k)
                        o.append(op("msg", [ci] + h + b))
        for b in ends(rng, .25 if n == 1 else 1):
            o.append(op("msg", [ci] + h + b))
        for b in rng.sample(PAIRS, 60):
            o.append(op("msg", [ci] + hdr_for(ci, rng) + b))
        first = [ci, ci, ci ^ 1, 0, 1, 0x0F, 0x1F, 0x2F, 0x68, 0x10, 0x16, 0xE5, 0xFF, 0x72, 0x78, 0x7A, 0x50, 0x51, 0x70, 0x6C, 0x6D]
        for a in dict.fromkeys(first):              # what it starts with
            for b in dict.fromkeys(first):
                if n > 1 or a == ci or rng.random() < .15:
                    h, t = hdr_for(ci, rng), rnd(rng, rng.choice([0, 1, 2, 2, 5, 14]))
                    o.append(op("msg", [ci] + h + [a, b] + t))
        for _ in range(25 * n):                     # the header's own bytes again
            h = hdr_for(ci, rng)
            rng.ctx = h if len(h) == 12 else [ci, 0, 0, 0, 0, 0, 0, 0] + h if h else [ci] * 12
            b = echo(rng, rng.choice([1, 2, 3, 4, 5, 8, 12, 13, 16, 30]))
            c, a = rng.choice(CONTROLS), rng.randrange(256)
            if rng.random() < .3:
                b = rng.choice([[ci], [c], [a], [c, a], [c, a, ci], [a, a], [ci, ci]]) + rng.choice([[], b])
            o.append(pkt([ci] + h + b, c, a))
    for m in (0x0F, 0x1F):
        for k in range(0, 230, 3):
            o.append(pkt(resp([0x01, 0x13, 5, m] + rnd(rng, k))))
    for b in ends(rng, 1):
        o.append(pkt(resp([0x01, 0x13, 5, rng.choice([0x0F, 0x1F])] + b)))
    for c in range(0xF1, 0x100):
        for k in (0, 1, 17, 200):
            o.append(op("msg", [0x70, c] + rnd(rng, k)))
    return clean(o)


def c25(rng, n):
    o = []
    cs = corpus()

    def item():
        k = rng.random()
        p = rng.choice(cs) if k < .4 and cs else packet(rng)
        if k > .8:
            p = mutate(rng, p)
        if .7 < k < .8:
            p = fix(mutate(rng, p)) or p
        return p
    for _ in range(70 * n):
        items = [item() for _ in range(rng.randrange(4, 14))]
        if rng.random() < .5:
            items = items + [list(items[0])] + [mutate(rng, items[0])] + [list(items[0])]
        b = []
        for it in items:
            b += [len(it) & 255, len(it) >> 8] + it
        o.append(op("hist", b, rng.choice([2, 4, 8]), rng.choice([2, 5])))
    def hist(items, threads, rounds):
        b = []
        for it in items:
            b += [len(it) & 255, len(it) >> 8] + it
        o.append(op("hist", b, threads, rounds))
    for _ in range(90 * n):
        p = rng.choice(cs) if rng.random() < .4 else packet(rng)
        sib = siblings(rng, p)
        rng.shuffle(sib)
        items = [p]
        for x in sib:
            items += [x, p] if rng.random() < .5 else [x]
        hist(items, rng.choice([1, 2, 4, 8]), rng.choice([1, 2, 4]))
    for _ in range(14 * n):
        for items in remembered(rng):
            hist(items, rng.choice([1, 1, 2, 8]), 2)
    for _ in range(2 * n):
        hist([item() for _ in range(6)], 8, 300)
    for _ in range(260 * n):
        hist(series(rng, 40), rng.choice([1, 1, 2, 4]), 2)
    for _ in range(900 * n):
        p = item()
        for nm in ("pkt", "slice", "loc", "pkt"):
            o.append(op(nm, p))
    # error behind error, then the same valid one again
    base = packet(rng)
    for _ in range(500 * n):
        o.append(op("pkt", mutate(rng, item())))
        o.append(op(rng.choice(["pkt", "slice", "loc"]), base))
    return clean(o)


def c26(rng, n):
    o = []

    def t(s, k=0):
        o.append(op("file", s.encode("utf-8") if isinstance(s, str) else s, k, rng.randrange(45) if k < 2 else 0))
    texts = ["", " ", "\n", "00", "E5", "e5\n", "10 40 01 41 16", "10 40 01 41 16\n", "\r\n10 40 01 41 16\r\n", "  10 40 ", "\t10 40\t", "10  40",
             "10\t40", "10\n40", "10,40", "xx", "1g", "0x10", "10 zz", "-1", "10 -1", "5 6", "a B c", "10 40 01 41 1", "1 0", "\x0b10\x0c",
             "FF ff Ff fF", "é", "10 \n", "\n\n10 40\n\n", "10 40 ;", "# 10", "G0", "0G", "1 g", ": 10"]
    for s in texts:
        t(s)
        t(s, 1)
    for a in range(256):
        t(f"{a:02X}")
        t(f"{a:02x} {rng.randrange(256):02X}\n")
        t(bytes([a]), 1)
        if a not in b"0123456789abcdefABCDEF+" and a < 128:
            t(b"10 " + bytes([a]) + b"0")
            t(b"10" + bytes([a]))
            t(bytes([a]) + b"10")
            t(b"10 4" + bytes([a]))
        t(bytes([rng.randrange(256) for _ in range(20)]), 1)
    ws = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2004\u200a\u2028\u2029\u202f\u205f\u3000"
    near = "\x1c\x1f\x84\x86\xa1\u180e\u200b\u200c\u2060\ufeff\u3001\u167f\u2027\u202a"
    for ch in ws + near:
        for s in (ch, ch + "10", "10" + ch, "10" + ch + "40", "10 40" + ch + "\n", ch + " 10", "10 " + ch + " 40", "10 " + ch):
            t(s)
    for s in ("+", "+5", "+a 1", "10 +F", "+ 5", "++5", "+-5", "5+", "0ff", "00FF", "100", "000", "0000000000000000000000000001",
              "+00ff", "256", "1000000000000000000000ff", "ff+", "0f0", "FFF", "10 100", "100 10", "-0", "00000"):
        t(s)
    for _ in range(150 * n):
        k = [rng.choice(["", "", "+", "++", "-"]) + "0" * rng.choice([0, 0, 1, 3]) + "%x" % rng.choice([rng.randrange(256), rng.randrange(600)])
             for _ in range(rng.randrange(1, 3))]
        t(rng.choice(["", rng.choice(ws)]) + " ".join(k) + rng.choice(["", rng.choice(ws), rng.choice(near)]))
    for a in range(128, 256):
        t(b"10" + bytes([a]))
        t(bytes([a]) + b"10")
        t(b"10" + bytes([0xC2, a]) + b" ")
        t(b"10" + bytes([0xE2, 0x80, a]))
        t(b"10 " + bytes([0xE2, a, 0x80]))
    t(b"10 \xff 20")
    t(b"\xff\xfe10")
    t(b"10 40\xc3")
    for _ in range(600 * n):
        b = [rng.randrange(256) for _ in range(rng.randrange(1, 260))]
        f = rng.choice(["%02X", "%02x", "%x", "%02X"])
        s = " ".join(f % x for x in b)
        s = rng.choice(["", " ", "\n", "\r\n", "\t "]) + s + rng.choice(["", " ", "\n", "\r\n", " \n\n"])
        t(s)
        t(bytes(b), 1)
        # damage one character
        i = rng.randrange(len(s))
        ch = rng.choice("gz.,;:_xG|/\\")
        t(s[:i] + ch + s[i + 1:])
    for p in corpus():
        t(" ".join("%02X" % x for x in p) + "\n")
        t(bytes(p), 1)
    t(b"", 2)
    t(b"", 3)
    # large files
    for k in (300, 511, 513, 1025, 4096, 4097, 8191, 8193) + ((70000,) if n > 1 else (16385,)):
        b = [rng.randrange(256) for _ in range(k)]
        t(bytes(b), 1)
        if k < 5000:
            t(" ".join("%02X" % x for x in b) + "\n")
    # the name alone says what the file is
    names = [".hex", "..hex", "hex", "a.hex", "x.hex.hex", ".hex.", ".hexx", "x.hex ", " .hex", "x.HEX", ".Hex", "x.he", "ex", "x", "x..hex",
             "x.hex.bin", "x.bin.hex", "é.hex", "x.hexé", "x.h\u00e9x", "x,hex", "xhex", "-.hex", "...", ".hex.hex~", "x.hex\n", "\n.hex", "x.h ex",
             "x" * 180 + ".hex", "x" * 180, "hex.hex", "x.hxe", "x.xeh", "\u212a.hex", "x\u2024hex", "x.ʰex", "\\.hex", "?.hex", "%2ehex", "x.hex;1", "~.hex"]
    body = ["E5", "10 40 01 41 16\n", " 0a ", "zz", "", "5", "10"]
    # and nothing else of the path does
    dirs = ["x.hex", ".hex", "x", "hex", "a.hex/b", "a/b.hex", ".", "x.bin", "x.hex.d", "é", "x.HEX"]
    names += [f"{d}/{f}" for d in dirs for f in ("raw", "x.hex", ".hex", "hex", "x.hex.bin", "x.HEX", "a") if d != "."]
    for nm in names:
        for b in body:
            o.append(op("named", b.encode(), *nm.encode()))
    for _ in range(400 * n):
        nm = "".join(rng.choice([".", "h", "e", "x", ".hex", ".hex", "H", "a", "é", " ", "-", "1"]) for _ in range(rng.randrange(1, 6)))
        if nm not in (".", ".."):
            o.append(op("named", rng.choice(body).encode(), *nm.encode()))
    return clean(o)


def c28(rng, n):
    o = []
    ctxs = list(range(21)) + list(range(32, 64))
    for cause in range(8):
        o.append(op("errtxt", [], cause))
        for a in ctxs:
            o.append(op("errtxt", [a], cause, rng.randrange(8), rng.randrange(2)))
            for b in (a, a ^ 8 if a >= 32 else a, 0, 8, rng.choice(ctxs), rng.choice(ctxs)):
                o.append(op("errtxt", [a, b], cause))
                o.append(op("errtxt", [b, a, rng.choice(ctxs)], cause))
        for _ in range(300 * n):
            o.append(op("errtxt", [rng.choice(ctxs) for _ in range(rng.randrange(2, 24))], cause, rng.randrange(8), rng.randrange(2)))
    for cause in (0, 1):
        for origin in range(8):
            for clone in (0, 1):
                for a in range(21):
                    o.append(op("errtxt", [a], cause, origin, clone))
        for a in range(21):
            for b in range(21):
                o.append(op("errtxt", [a, b], cause))
                o.append(op("errtxt", [a, b], cause, rng.randrange(1, 8), rng.randrange(2)))
                for c in range(21):
                    if n > 1 or (a * 31 + b * 17 + c * 7 + cause) % 3 == 0:
                        o.append(op("errtxt", [a, b, c], cause))
        for _ in range(1500 * n):
            o.append(op("errtxt", [rng.randrange(21) for _ in range(rng.randrange(3, 30))], cause))
            o.append(op("errtxt", [rng.choice([12, 16, 20, rng.randrange(21)])] + [rng.randrange(21) for _ in range(rng.randrange(1, 12))],
                        cause, rng.randrange(8), rng.randrange(2)))
        for k in (100, 400):
            o.append(op("errtxt", [rng.randrange(21) for _ in range(k)], cause))
    # errors the packet parser gives
    cp = corpus()
    for _ in range(1500 * n):
        o.append(op("errpkt", mutate(rng, rng.choice(cp))))
        o.append(op("errpkt", mutate(rng, packet(rng))))
    for d in rng.sample(cp, min(len(cp), 6 * n)):
        for k in range(len(d)):
            o.append(op("errpkt", d[:k]))
    for d in corpus_data()[:6 * n]:
        for k in range(len(d)):
            o.append(op("errpkt", wrap(d[:k])))
            x = list(d)
            x[k] ^= 1 << rng.randrange(8)
            o.append(op("errpkt", wrap(x)))
    return clean(o)


WORK = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
WORK = {k: v for k, v in WORK.items() if k != "MAN"}
PUMPED = {"C01": ("vib", "dib", "rec", "frame", "fill", "msg", "select", "err", "pkt"), "C02": ("pkt",), "C09": ("frame", "rec"),
          "C10": ("fill", "frame"), "C11": ("dib",), "C13": ("vib", "rec"), "C20": ("select",), "C21": ("err",), "C23": ("frame",), "C24": ("msg",)}


def with_pumps(f, what):
    def g(rng, n):
        o = f(rng, n)
        # a generator of its own: the other inputs do not depend on these
        own = random.Random(rng.random())
        long = pumps(own, what, 1 if n == 1 else 4)
        # ... and not only the longest: just past the counters, around powers of two and ten, and any size between
        sizes = [own.choice([2 ** own.randrange(4, 17) + own.randrange(-1, 2), 10 ** own.randrange(2, 5) + own.randrange(-1, 2),
                             own.randrange(11, 15), int(11 * 1.003 ** own.randrange(2000))]) for _ in long]
        return o + long + [re.sub(r":(\d+)", lambda m: f":{min(k, int(m[1]))}", l, count=1) for l, k in zip(long, sizes)]
    return g


for _k, _w in PUMPED.items():
    WORK[_k] = with_pumps(WORK[_k], _w)
DEEP = {"C22": 5}

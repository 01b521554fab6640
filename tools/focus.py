"""Telegrams built around given constants: every count, length and value a
telegram has, set to the constant and its neighbours (see dictionary.py)."""
import gen
from gen import op, pkt, wrap, man, resp, WIDTH, FIELDS, hdr_for, long_hdr

VIFS = [0x03, 0x13, 0x2B, 0x3B, 0x5B, 0x6C, 0x6D, 0x74, 0x78, 0x7A]


def dib_for(field, fn, storage, tariff, sub, n_min=0):
    """DIF and extensions saying exactly that"""
    d = [field | fn << 4 | (storage & 1) << 6]
    s, k = storage >> 1, 0
    while s or tariff or sub or k < n_min:
        d[-1] |= 0x80
        d.append(s & 15 | (tariff & 3) << 4 | (sub & 1) << 6)
        s, tariff, sub, k = s >> 4, tariff >> 2, sub >> 1, k + 1
    return d


def chain(n, last):
    return [0x80] * (n - 1) + [last] if n else []


def counts(rng, k):
    """k of everything that comes in numbers"""
    r1 = [0x01, 0x13, 0x05]
    out = []
    if k <= 238:
        out += [resp([0x2F] * k + r1), resp(r1 + [0x2F] * k), resp(r1 + [0x2F] * k + r1),
                resp([0x0F] + [rng.randrange(256) for _ in range(k)]), resp(r1 + [0x1F] + [0x2F] * k),
                resp([0x01, 0x13 | 0x80] + chain(max(k, 1), 0x02) + [0x05]),
                resp([0x01, 0x7C, k] + [0x41 + i % 26 for i in range(k)] + [0x05]),
                resp([0x0D, 0x13, k] + [0x41 + i % 26 for i in range(k)]),
                resp([0x0D, 0x78, k] + [rng.randrange(256) for _ in range(k)] + r1)]
        for n in (0, 1, 2, k, 11):
            out.append(resp([0x81 if n else 0x01] + ([0x80] * (n - 1) + [rng.randrange(128)] if n else []) + [0x13, 0x05]))
        for c in (0xC0, 0xD0, 0xE0, 0xF0):
            b = c + k if c + k < 256 else c
            n = gen.lvar_len(b)
            if n is not None:
                out.append(resp([0x0D, 0x13, b] + gen.bcd(rng, n, False)) if c < 0xE0 else resp([0x0D, 0x13, b] + gen.rnd(rng, n)))
        for ci in (0x51, 0x54, 0x5A, 0x5B, 0x5C, 0x6C, 0x6D, 0x71, 0x74, 0x75, 0x90, 0xA0, 0xB0, 0xC0, 0xC4, 0x60, 0x5F, 0x83, 0x8A, 0x66, 0x50, 0x6E, 0x70):
            out.append([ci] + hdr_for(ci, rng) + [rng.randrange(256) for _ in range(k)])
            out.append([ci] + hdr_for(ci, rng) + [k & 255] * min(k, 10))
        for size, r in ((2, lambda: [0x00, 0x13]), (3, lambda: [0x01, 0x13, rng.randrange(256)]), (4, lambda: [0x02, 0x13, 1, 2])):
            if size * k < 240:
                out.append(resp(sum((r() for _ in range(k)), [])))
        # the whole telegram k bytes of data long
        if k > 16:
            body = []
            while len(body) < k - 13 - 3:
                body += [0x01, 0x13, rng.randrange(256)]
            out += [resp(body + [0x2F] * (k - 13 - len(body))), resp(body + [0x0F] + [7] * (k - 14 - len(body))),
                    resp(body + [0x2F] * (k - 15 - len(body)))]
    return out


def values(rng, v):
    """v as every value a telegram can carry"""
    out, b = [], v & 255
    for ci in (b, 0x72, 0x7A):
        out.append([ci] + hdr_for(ci, rng) + [0x01, 0x13, 0x05])
    for ci in (0x72, 0x7A, 0x5B, 0x65, 0x6F, 0x75):
        h = hdr_for(ci, rng)
        for i in range(len(h)):
            out.append([ci] + h[:i] + [b] + h[i + 1:])
            if v > 255 and i + 1 < len(h):
                out.append([ci] + h[:i] + [b, v >> 8 & 255] + h[i + 2:])
    if v < 10 ** 8:
        out.append([0x72] + list(bytes.fromhex("%08d" % v))[::-1] + hdr_for(0x72, rng)[4:] + [0x01, 0x13, 5])
    for f in FIELDS:
        for vif in VIFS + [[0xFD, 0x17], [0xFD, 0x72], [0xFB, 0x01], [0x7F], [0x7C, 1, 0x41]]:
            vb = vif if isinstance(vif, list) else [vif]
            if f == 13:
                out.append(resp([f] + vb + [b] + gen.rnd(rng, gen.lvar_len(b) or 0)))
                continue
            n = WIDTH[f]
            le = (v & (1 << 8 * n) - 1).to_bytes(n, "little")
            ng = (-v & (1 << 8 * n) - 1).to_bytes(n, "little")
            bc = bytes.fromhex(str(v).rjust(2 * n, "0")[-2 * n:]) if n else b""
            for d in {le, le[::-1], ng, bc[::-1]}:
                out.append(resp([f] + vb + list(d)))
            if n:
                i = rng.randrange(n)
                d = gen.data_for(rng, f, vb)
                out.append(resp([f] + vb + d[:i] + [b] + d[i + 1:]))
    for vb in ([b], [0xFB, b], [0xFD, b], [0xFD, 0xFD, b], [0xFB, 0xFB, b], [0x93, b], [0xFD, 0x97, b], [0x93, 0x80, b], [0xFF, b], [0xFE, b]):
        x = vb + ([] if vb[-1] < 128 else [0x02])
        for f in (1, 2, 4, 5, 12, 13, 6):
            out.append(resp([f] + x + ([1, b] if f == 13 else gen.data_for(rng, f, [0x13]))))
        out.append(resp([b & 15] + vb + [b]))
    for d in ([b, 0x13], [b, 0x01, 0x13], [0x81, b] + ([0x01] if b > 127 else []) + [0x13]):
        out.append(resp(d + gen.data_for(rng, d[0] & 15, [0x13])) if d[0] & 15 in FIELDS else resp(d + [1, 2]))
    for st, ta, su in ((v, 0, 0), (0, v, 0), (0, 0, v), (v, v, v), (v, 1, 0), (1, v, 1), (v, v, 0)):
        if st < 1 << 41 and ta < 1 << 20 and su < 1 << 10:
            for fn in range(4):
                out.append(resp(dib_for(1, fn, st, ta, su) + [0x13, 0x05]))
    for ci in (0x66, 0x67, 0x68, 0x50, 0x53, 0x6E, 0x6F, 0x70):
        h = hdr_for(ci, rng)
        for body in ([b], [b, 0], [0, b], [b, b], [0xF0, b], [b, 0x01, 0x13, 5], [b, 1, 2, 3], [b & 0xF0 | 1, b & 15]):
            out.append([ci] + h + body)
    if v > 255:
        out += [resp([0x02, 0x13, b, v >> 8 & 255]), resp([0x02, 0x6C, b, v >> 8 & 255])]
    return out


def dates(rng, v):
    """v as each component of each date form, the others valid"""
    out = []
    for n, f, vif in ((2, 2, [0x6C]), (4, 4, [0x6D]), (3, 3, [0x6D]), (6, 6, [0x6D]), (4, 4, [0xFD, 0x72])):
        for i in range(n):
            for _ in range(3):
                d = gen.valid_dst(rng) if vif[0] == 0xFD else gen.valid_date(rng, n)
                lo = rng.choice([5, 6, 4, 7])
                d[i] = (d[i] & ~((1 << lo) - 1) | v & (1 << lo) - 1) & 255
                out.append(resp([f] + vif + d))
        if 0 <= v < 128:
            for _ in range(6):
                d = gen.valid_date(rng, n)
                if n != 3 and vif[0] != 0xFD:
                    k = -2 if n != 6 else 3
                    d[k] = d[k] & 31 | (v & 7) << 5
                    d[k + 1] = d[k + 1] & 15 | (v >> 3 & 15) << 4
                    out.append(resp([f] + vif + d))
    return out


def text(rng, t):
    """t as the manufacturer, as text, as data"""
    out, b = [], list(t.encode())
    up = [c for c in t.upper() if "A" <= c <= "Z"]
    for i in range(0, max(1, len(up) - 2)):
        m = "".join(up[i:i + 3])
        if len(m) == 3:
            for ty in range(0, 64, 3):
                h = long_hdr(rng)
                h[4:6] = man(m)
                h[7] = ty
                out.append([0x72] + h)
    for x in (b, b[::-1]):
        for c in (x, x + [0x41], [0x41] + x):
            if len(c) < 180:
                out += [resp([0x0D, 0x13, len(c)] + c), resp([0x0D, 0x78, len(c)] + c[::-1]), resp([0x01, 0x7C, len(c)] + c + [5]),
                        resp([0x0F] + c), resp([0x01, 0x13, 5] + c), [0x51] + c, [0x6E] + hdr_for(0x6E, rng) + c, [0xA0] + c]
    return out


def ops(rng, nums, texts):
    data, out = [], []
    for v in nums:
        for x in (v - 1, v, v + 1):
            if 0 <= x <= 600:
                data += counts(rng, x)
            if x >= 0:
                data += values(rng, x) + (dates(rng, x) if x < 256 else [])
        if 0 < v < 256:
            for c in (v, v - 1):
                for a in (v, 1, 253, 254, 255):
                    out += [op("pkt", gen.short(c, a)), op("prefix", gen.short(c, a))]
                    out += [o for o in [pkt(resp([0x01, 0x13, 5]), c, a)] if o]
            out += [o for c in gen.CONTROLS for o in [op("pkt", gen.short(c, v)), pkt(resp([0x01, 0x13, 5]), c, v)] if o]
    for t in texts:
        data += text(rng, t)
    for d in data:
        w = wrap(d)
        if w:
            out.append(op("pkt", w))
            if rng.random() < .1:
                out += [op("pkt", w[:-1]), op("pkt", gen.mutate(rng, w)), op("prefix", w), op("slice", w), op("loc", w)]
            if d[0] == 0x72 and rng.random() < .3:
                out += [op("rec", d[13:]), op("frame", d[13:])]
    return gen.clean(out) if len(out) < 24000 else rng.sample(gen.clean(out), 24000)

"""Fujifilm compressed raw data: the encoder is the decoder asked which code it wants."""
import struct
class Bits:
    def __init__(self): self.s = []
    def put(self, v, n): self.s.append(format(v, f"0{n}b") if n else "")
    def bytes(self):
        s = "".join(self.s); s += "0" * (-len(s) % 8)
        return int(s, 2).to_bytes(len(s) // 8, "big") if s else b""
def log2ceil(n):
    b = 1
    while n > 2: n = (n + 1) // 2; b += 1
    return b
class T:
    def __init__(s, base, qp, total, multi, first): s.base, s.qp, s.total, s.multi, s.first, s.bits = base, qp, total, multi, first, log2ceil(total)
    def cls(s, v):
        q = s.qp
        for lim, c in ((-q[3], -4), (-q[2], -3), (-q[1], -2)):
            if v <= lim: return c
        if v < -q[0]: return -1
        if v <= q[0]: return 0
        for i in (1, 2, 3):
            if v < q[i]: return i
        return 4
def main_table(bits, base):
    mx = (1 << bits) - 1
    a = 3 * base + 18
    if a > mx or a < base + 1: a = base + 1
    b = 5 * base + 67
    if b < a or b > mx: b = a
    c = 7 * base + 276
    if c < b or c > mx: c = b
    return T(base, (base, a, b, c), (mx + 2 * base) // (2 * base + 1) + 1, 9, 0)
def lossy_table(bits, k):
    mx = (1 << bits) - 1
    return T(k - 1, ((0, 18, 67, 276), (1, 21, 72, 283), (2, 24, 77, 290))[k - 1], (mx + 2 * (k - 1)) // (2 * k - 1) + 1, 3, 41 + 5 * (k - 1))
PAIRS = [("R", 1, "G", 1, 0), ("G", 2, "B", 1, 1), ("R", 2, "G", 3, 2), ("G", 4, "B", 2, 0), ("R", 3, "G", 5, 1), ("G", 6, "B", 3, 2)]
def skipped(c, j, i):
    if c == "R": return j == 1 or (j == 2 and i % 4 == 0) or (j == 3 and i % 4 == 2)
    if c == "G": return j in (3, 6)
    return j == 1 or (j == 2 and i % 4 == 2) or (j == 3 and i % 4 == 0)
class Strip:
    """want(colour, line of the block, place, predicted, block) -> value wanted, or None: a random code"""
    def __init__(s, rng, bits, xt, lossless, bases, want, odd_codes=.002):
        s.rng, s.bits, s.mx, s.xt, s.want, s.odd = rng, bits, (1 << bits) - 1, xt, want, odd_codes
        s.lw = lw = 512 if xt else 384
        s.out = Bits(); s.l = {c: [[0] * lw, [0] * lw] for c in "RGB"}
        lt = [lossy_table(bits, k) for k in (1, 2, 3)]
        start = lambda t: [max(2, (t.total + 32) // 64), 1]
        s.ge = [[[0, 0] for _ in range(41)] + [start(lt[k]) for k in range(3) for _ in range(5)] for _ in range(3)]
        s.go = [[list(g) for g in gs] for gs in s.ge]
        s.rows = []
        for n, base in enumerate(bases):
            s.ts = [main_table(bits, 0 if lossless else base)] + ([] if lossless else lt)
            if n == 0 or (not lossless and base != bases[n - 1]):
                for gs in s.ge + s.go:
                    for i in range(41): gs[i] = start(s.ts[0])
            s.block(n)
    def block(s, n):
        lw = s.lw
        for c in "RGB": s.l[c] = s.l[c][-2:]
        for c0, j0, c1, j1, g in PAIRS:
            x = [[0] * lw, [0] * lw]
            ctx = [(c0, j0, s.l[c0][-1], s.l[c0][-2], x[0]), (c1, j1, s.l[c1][-1], s.l[c1][-2], x[1])]
            for step in range(lw // 2 + 4):
                e, o = 2 * step, 2 * (step - 4) + 1
                if e < lw:
                    for cx in ctx: s.even(cx, e, s.ge[g], n)
                if o >= 1:
                    for cx in ctx: s.odds(cx, o, s.go[g], n)
            s.l[c0].append(x[0]); s.l[c1].append(x[1])
    def table(s, d):
        for k in (1, 2, 3):
            if s.ts[0].base < k: break
            if d <= 4 + k: return s.ts[k]
        return s.ts[0]
    @staticmethod
    def interp(f, c, b, d):
        cb, fb, db = abs(c - b), abs(f - b), abs(d - b)
        return (f + d + 2 * b if cb > fb and cb > db else f + c + 2 * b if db > cb and db > fb else d + c + 2 * b) >> 2
    def even(s, cx, i, gs, n):
        c, j, b1, b2, x = cx
        rb, rc, rd, rf = b1[i], b1[i - 1] if i else b2[0], b1[i + 1], b2[i]
        if s.xt and skipped(c, j, i): x[i] = s.interp(rf, rc, rb, rd); return
        t = s.table(abs(rf - rb) + abs(rc - rb))
        x[i] = s.code(cx, i, t, t.multi * t.cls(rb - rf) + t.cls(rc - rb), s.interp(rf, rc, rb, rd), gs, n)
    def odds(s, cx, i, gs, n):
        c, j, b1, b2, x = cx; lw = s.lw
        ra, rb, rc = x[i - 1], b1[i], b1[i - 1]
        rd, rg = (b1[i + 1], x[i + 1]) if i + 1 < lw else (b2[lw - 1], b1[lw - 1])
        t = s.table(abs(rb - rc) + abs(rc - ra))
        p = (rg + ra + 2 * rb) >> 2 if (rb > rc and rb > rd) or (rb < rc and rb < rd) else (ra + rg) >> 1
        x[i] = s.code(cx, i, t, t.multi * t.cls(rb - rc) + t.cls(rc - ra), p, gs, n)
    def code(s, cx, i, t, gr, p, gs, n):
        q = 2 * t.base + 1; g = gs[t.first + abs(gr)]
        lo, hi = -(t.total // 2), (t.total - 1) // 2
        w = s.want(cx[0], cx[1], i, p, n)
        if w is None: v = s.rng.randrange(lo, hi + 1)
        else:
            d = w - p if gr >= 0 else p - w
            v = (d + (t.base if d >= 0 else -t.base)) // q if d >= 0 else -((-d + t.base) // q)
            if v > hi: v -= t.total
            elif v < lo: v += t.total
            v = max(lo, min(hi, v))
        c = 2 * v if v >= 0 else -2 * v - 1
        nb = 0
        while nb < 15 and (g[1] << nb) < g[0]: nb += 1
        esc = 4 * s.bits - t.bits - 1
        if (c >> nb) < esc and not (c and s.rng.random() < s.odd):
            s.out.put(1, (c >> nb) + 1); s.out.put(c & ((1 << nb) - 1), nb)
        else:
            s.out.put(1, esc + 1 + (s.rng.choice([0, 0, 1, 5, 40]) if s.rng.random() < .1 else 0)); s.out.put(c - 1, t.bits)
        g[0] += abs(v)
        if g[1] == 64: g[0] >>= 1; g[1] >>= 1
        g[1] += 1
        y = p - v * q if gr < 0 else p + v * q
        if y < -t.base: y += t.total * q
        elif y > t.base + s.mx: y -= t.total * q
        return max(0, min(s.mx, y))
def wants(rng, kind, mx, lw):
    """what the samples are like"""
    a, b = rng.randrange(mx + 1), rng.choice([1, 3, 10, 40, mx // 8 + 1])
    if kind == "noise": return lambda c, j, i, p, n: rng.randrange(mx + 1)
    if kind == "flat": return lambda c, j, i, p, n: a
    if kind == "near": return lambda c, j, i, p, n: max(0, min(mx, p + rng.randrange(-b, b + 1)))
    if kind == "walk":
        st = {}
        def f(c, j, i, p, n):
            k = (c, i // 8); st[k] = max(0, min(mx, st.get(k, a) + rng.randrange(-b, b + 1))); return max(0, min(mx, st[k] + rng.randrange(-2, 3)))
        return f
    if kind == "ramp": return lambda c, j, i, p, n: (a + i * b + 7 * j * (1 + "RGB".index(c))) % (mx + 1)
    if kind == "codes": return lambda c, j, i, p, n: None if rng.random() < .05 else p
    if kind == "steps": return lambda c, j, i, p, n: (a if (i // 32 + j) % 2 else b) if rng.random() > .01 else rng.choice([0, mx])
KINDS = ["near", "near", "walk", "walk", "flat", "ramp", "steps", "codes", "noise"]
def fuji(rng, w, h, bits=14, xt=True, lossless=True, kind=None, bases=None):
    n = (w + 767) // 768; lines = h // 6
    strips, qb = [], b""
    for k in range(n):
        bs = [bases if isinstance(bases, int) else rng.choice([0, 1, 2, 3, 5, 20, 255, 0]) for _ in range(lines)]
        if bases is None and rng.random() < .6: bs = [bs[0]] * lines
        kd = kind or rng.choice(KINDS)
        strips.append(Strip(rng, bits, xt, lossless, bs, wants(rng, kd, (1 << bits) - 1, 0)).out.bytes())
        qb += bytes(bs) + bytes(-lines % 16)
    strips = [s + bytes(rng.choice([0, 0, -len(s) % 16, 3])) for s in strips]
    head = struct.pack(">HBBBHHHHBH", 0x4953, 1 if lossless else 0, 16 if xt else 0, bits, h, 768 * n, w, 768, n, lines)
    sizes = b"".join(struct.pack(">I", len(s)) for s in strips)
    return head + sizes + bytes(-len(sizes) % 16) + (b"" if lossless else qb) + b"".join(strips)

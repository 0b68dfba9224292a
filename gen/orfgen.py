"""Olympus compressed raw data."""
import random
def encode(rng, w, h, v, esc=.05):
    """v: rows of samples"""
    bits = []
    def put(x, n): bits.append(format(x & ((1 << n) - 1), f"0{n}b") if n else "")
    for y in range(h):
        car = [[0, 0, 0], [0, 0, 0]]
        for x in range(w // 2 * 2):
            c = car[x & 1]
            i = 2 if c[2] < 3 else 0
            nb = 2 + i
            while nb + i < 16 and (c[0] & 0xffff) >> (nb + i): nb += 1
            if y < 2: pred = 0 if x < 2 else v[y][x - 2]
            elif x < 2: pred = v[y - 2][x]
            else:
                W, N, NW = v[y][x - 2], v[y - 2][x], v[y - 2][x - 2]
                if W < NW < N or N < NW < W: pred = W + N - NW if abs(W - NW) > 32 or abs(N - NW) > 32 else (W + N) >> 1
                else: pred = W if abs(W - NW) > abs(N - NW) else N
            d = v[y][x] - pred
            low = d & 3; diff = d >> 2
            t = diff - c[1]
            sign = t < 0
            a = ~t if sign else t
            high = a >> nb
            put(1 if sign else 0, 1); put(low, 2)
            if high < 12 and rng.random() >= esc: put(1, high + 1)
            else: put(0, 12); put(high * 2 + rng.randrange(2), 16 - nb)
            put(a, nb)
            c[0] = a; c[1] = (diff * 3 + c[1]) >> 5; c[2] = 0 if a > 16 else c[2] + 1
    s = "".join(bits); s += "0" * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big") if s else b""
def picture(rng, w, h):
    k = rng.random()
    if k < .25: return [[rng.randrange(4096) for _ in range(w)] for _ in range(h)]
    if k < .35: return [[rng.choice([0, 4095]) for _ in range(w)] for _ in range(h)]
    if k < .45: return [[rng.choice([7, 2000])] * w for _ in range(h)]
    amp = rng.choice([2, 8, 40, 200]); base = rng.randrange(200, 3800)
    a, b = rng.randrange(-8, 9), rng.randrange(-8, 9)
    return [[min(4095, max(0, base + a * (x // 2) + b * (y // 2) + rng.randrange(-amp, amp + 1))) for x in range(w)] for y in range(h)]
def payload(rng, w, h, tail=None):
    b = bytes(rng.randrange(256) for _ in range(7)) + encode(rng, w, h, picture(rng, w, h), rng.choice([0, .05, .3]))
    return b + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 5]) if tail is None else tail))

"""Concretiser: turns an abstract image (quantised DCT coefficients + coding choices) into JPEG bytes.

It is the inverse of the TLA+ decoding specification and is itself checked against it: every file it
writes is decoded by the specification (TLC), which is the oracle."""
import random

ZZ = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34,
      27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
      58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63]

STD_DC = ([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], list(range(12)))
STD_AC = ([0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d], [
    0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07,
    0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xa1, 0x08, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52, 0xd1, 0xf0,
    0x24, 0x33, 0x62, 0x72, 0x82, 0x09, 0x0a, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25, 0x26, 0x27, 0x28,
    0x29, 0x2a, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49,
    0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69,
    0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89,
    0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7,
    0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5,
    0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2,
    0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
    0xf9, 0xfa])


def code_map(tab):
    bits, vals = tab
    code, k, m = 0, 0, {}
    for l in range(1, 17):
        for _ in range(bits[l - 1]):
            m[vals[k]] = (code, l)
            code += 1
            k += 1
        code <<= 1
    return m


def optimal_table(freq, maxlen=16):
    """length-limited canonical code (package-merge-free: libjpeg style adjustment), all-ones code reserved"""
    items = [(max(1, f), s) for s, f in freq.items()]
    # reserve one code point: pseudo symbol 256
    import heapq
    h = [(f, i, [s]) for i, (f, s) in enumerate(items)] + [(0, len(items), [256])]
    heapq.heapify(h)
    depth = {s: 0 for _, s in items}
    depth[256] = 0
    n = len(h)
    if n == 1:
        depth[256] = 1
    while len(h) > 1:
        a = heapq.heappop(h)
        b = heapq.heappop(h)
        for s in a[2] + b[2]:
            depth[s] += 1
        n += 1
        heapq.heappush(h, (a[0] + b[0], n, a[2] + b[2]))
    cnt = [0] * 300
    for s, d in depth.items():
        cnt[d] += 1
    i = 299
    while i > maxlen:
        while cnt[i] > 0:
            j = i - 2
            while cnt[j] == 0:
                j -= 1
            cnt[i] -= 2
            cnt[i - 1] += 1
            cnt[j + 1] += 2
            cnt[j] -= 1
        i -= 1
    while cnt[i] == 0:
        i -= 1
    cnt[i] -= 1          # drop the reserved code point (longest)
    order = sorted((s for s in depth if s != 256), key=lambda s: (depth[s], s))
    return (cnt[1:17], order)


def skewed_table(symbols, rng, lens=None):
    """a legal canonical table over `symbols` (shuffled) with unusual lengths: unary-like up to 16 bits"""
    syms = list(symbols)
    rng.shuffle(syms)
    n = len(syms)
    cnt = [0] * 16
    # spend: keep `free` leaves at level l
    free, left, l = 2, n, 1
    while left > 0:
        if l == 16:
            assert free - 1 >= left, (free, left)
            cnt[15] = left
            left = 0
            break
        # maximum number we may place here such that the rest still fits (all-ones kept free)
        mx = 0
        for k in range(0, min(left, free - 1) + 1):
            rem = left - k
            f = (free - k)
            if rem == 0 or (f << (16 - l)) - 1 >= rem:
                mx = k
        k = mx if rng.random() < 0.0 else rng.randint(0, min(mx, 3 if l < 6 else mx))
        cnt[l - 1] = k
        left -= k
        free = (free - k) * 2
        l += 1
    return (cnt, syms)


class Bits:
    def __init__(self):
        self.acc, self.n, self.out = 0, 0, bytearray()

    def put(self, v, n):
        if n == 0:
            return
        self.acc = (self.acc << n) | (v & ((1 << n) - 1))
        self.n += n
        while self.n >= 8:
            b = (self.acc >> (self.n - 8)) & 255
            self.out.append(b)
            if b == 255:
                self.out.append(0)
            self.n -= 8
        self.acc &= (1 << self.n) - 1

    def flush(self, pad=1):
        if self.n:
            k = 8 - self.n
            self.put((1 << k) - 1 if pad else 0, k)


def cat(v):
    return abs(v).bit_length()


def mag(v, n):
    return v if v >= 0 else v + (1 << n) - 1


# ---- a scan is first produced as a list of "tokens": ('h', cls, tableslot, symbol) | ('b', value, nbits) | ('rst',)
class Img:
    """w,h; comps: list of dict(id,h,v,tq,blocks=rows x cols of 64 natural-order coefs (padded to MCU grid))"""

    def __init__(self, w, h, samp, ids=None, tqs=None):
        self.w, self.h = w, h
        self.comps = []
        n = len(samp)
        ids = ids or [1, 2, 3][:n]
        tqs = tqs or [0, 1, 1][:n]
        self.hmax = max(s[0] for s in samp)
        self.vmax = max(s[1] for s in samp)
        self.mcux = -(-w // (8 * self.hmax))
        self.mcuy = -(-h // (8 * self.vmax))
        for (hh, vv), i, t in zip(samp, ids, tqs):
            bw, bh = self.mcux * hh, self.mcuy * vv
            cw = -(-w * hh // self.hmax)
            ch = -(-h * vv // self.vmax)
            self.comps.append(dict(id=i, h=hh, v=vv, tq=t, bw=bw, bh=bh, nbw=-(-cw // 8), nbh=-(-ch // 8),
                                   blocks=[[[0] * 64 for _ in range(bw)] for _ in range(bh)]))

    def mcus(self, comp_idx):
        """yield lists of (ci, by, bx) per MCU of a scan over comp_idx"""
        if len(comp_idx) == 1:
            c = self.comps[comp_idx[0]]
            for y in range(c['nbh']):
                for x in range(c['nbw']):
                    yield [(comp_idx[0], y, x)]
        else:
            for my in range(self.mcuy):
                for mx in range(self.mcux):
                    l = []
                    for ci in comp_idx:
                        c = self.comps[ci]
                        for v in range(c['v']):
                            for h in range(c['h']):
                                l.append((ci, my * c['v'] + v, mx * c['h'] + h))
                    yield l


def tok_seq(img, comp_idx, ri, td, ta):
    T, pred, n = [], {}, 0
    for m in img.mcus(comp_idx):
        if ri and n == ri:
            T.append(('rst',))
            pred, n = {}, 0
        n += 1
        for ci, y, x in m:
            b = img.comps[ci]['blocks'][y][x]
            d = b[0] - pred.get(ci, 0)
            pred[ci] = b[0]
            s = cat(d)
            T.append(('h', 0, td[ci], s))
            T.append(('b', mag(d, s), s))
            r = 0
            last = max([k for k in range(1, 64) if b[ZZ[k]]], default=0)
            for k in range(1, last + 1):
                v = b[ZZ[k]]
                if v == 0:
                    r += 1
                    continue
                while r > 15:
                    T.append(('h', 1, ta[ci], 0xF0))
                    r -= 16
                s = cat(v)
                T.append(('h', 1, ta[ci], r * 16 + s))
                T.append(('b', mag(v, s), s))
                r = 0
            if last < 63:
                T.append(('h', 1, ta[ci], 0))
    return T


def tok_dc_first(img, comp_idx, ri, td, al):
    T, pred, n = [], {}, 0
    for m in img.mcus(comp_idx):
        if ri and n == ri:
            T.append(('rst',))
            pred, n = {}, 0
        n += 1
        for ci, y, x in m:
            v = img.comps[ci]['blocks'][y][x][0] >> al
            d = v - pred.get(ci, 0)
            pred[ci] = v
            s = cat(d)
            T.append(('h', 0, td[ci], s))
            T.append(('b', mag(d, s), s))
    return T


def tok_dc_refine(img, comp_idx, ri, al):
    T, n = [], 0
    for m in img.mcus(comp_idx):
        if ri and n == ri:
            T.append(('rst',))
            n = 0
        n += 1
        for ci, y, x in m:
            T.append(('b', (img.comps[ci]['blocks'][y][x][0] >> al) & 1, 1))
    return T


def sh(v, al):
    return v >> al if v >= 0 else -((-v) >> al)


def tok_ac_first(img, ci, ri, ta, ss, se, al, maxrun=0x7FFF):
    T, n, eob = [], 0, 0

    def flush():
        nonlocal eob
        if eob:
            r = eob.bit_length() - 1
            T.append(('h', 1, ta[ci], r * 16))
            T.append(('b', eob - (1 << r), r))
            eob = 0
    for m in img.mcus([ci]):
        if ri and n == ri:
            flush()
            T.append(('rst',))
            n = 0
        n += 1
        _, y, x = m[0]
        b = img.comps[ci]['blocks'][y][x]
        r = 0
        last = max([k for k in range(ss, se + 1) if sh(b[ZZ[k]], al)], default=-1)
        if last >= 0:
            flush()
            for k in range(ss, last + 1):
                v = sh(b[ZZ[k]], al)
                if v == 0:
                    r += 1
                    continue
                while r > 15:
                    T.append(('h', 1, ta[ci], 0xF0))
                    r -= 16
                s = cat(v)
                T.append(('h', 1, ta[ci], r * 16 + s))
                T.append(('b', mag(v, s), s))
                r = 0
        if last < se:
            eob += 1
            if eob >= maxrun:
                flush()
    flush()
    return T


def tok_ac_refine(img, ci, ri, ta, ss, se, al, maxrun=0x7FFF):
    T, n, eob, corr = [], 0, 0, []

    def flush():
        nonlocal eob, corr
        if eob:
            r = eob.bit_length() - 1
            T.append(('h', 1, ta[ci], r * 16))
            T.append(('b', eob - (1 << r), r))
            eob = 0
        for c in corr:
            T.append(('b', c, 1))
        corr = []
    for m in img.mcus([ci]):
        if ri and n == ri:
            flush()
            T.append(('rst',))
            n = 0
        n += 1
        _, y, x = m[0]
        b = img.comps[ci]['blocks'][y][x]
        ab = {k: abs(b[ZZ[k]]) >> al for k in range(ss, se + 1)}
        eobpos = max([k for k in ab if ab[k] == 1], default=0)
        r, br = 0, []
        for k in range(ss, se + 1):
            a = ab[k]
            if a == 0:
                r += 1
                continue
            while r > 15 and k <= eobpos:
                flush()
                T.append(('h', 1, ta[ci], 0xF0))
                r -= 16
                for c in br:
                    T.append(('b', c, 1))
                br = []
            if a > 1:
                br.append(a & 1)
                continue
            flush()
            T.append(('h', 1, ta[ci], r * 16 + 1))
            T.append(('b', 0 if b[ZZ[k]] < 0 else 1, 1))
            for c in br:
                T.append(('b', c, 1))
            br, r = [], 0
        if r > 0 or br:
            eob += 1
            corr += br
            if eob >= maxrun or len(corr) > 900:
                flush()
    flush()
    return T


def freqs(T):
    f = {}
    for t in T:
        if t[0] == 'h':
            f.setdefault((t[1], t[2]), {})
            d = f[(t[1], t[2])]
            d[t[3]] = d.get(t[3], 0) + 1
    return f


def emit(T, tabs, pad=1, fill=0, rst0=0):
    """tabs: {(cls,slot): (bits,vals)} -> entropy coded bytes"""
    m = {k: code_map(v) for k, v in tabs.items()}
    B, r = Bits(), rst0
    for t in T:
        if t[0] == 'h':
            B.put(*m[(t[1], t[2])][t[3]])
        elif t[0] == 'b':
            B.put(t[1], t[2])
        else:
            B.flush(pad)
            B.out += b'\xff' * fill + bytes([0xFF, 0xD0 + (r & 7)])
            r += 1
    B.flush(pad)
    return bytes(B.out)


def seg(m, payload):
    return bytes([0xFF, m]) + (len(payload) + 2).to_bytes(2, 'big') + bytes(payload)


def dqt_payload(slot, q):          # q natural order
    return bytes([slot]) + bytes(q[ZZ[i]] for i in range(64))


def dht_payload(cls, slot, tab):
    return bytes([cls * 16 + slot]) + bytes(tab[0]) + bytes(tab[1])


def sof(m, img, prec=8):
    p = bytes([prec]) + img.h.to_bytes(2, 'big') + img.w.to_bytes(2, 'big') + bytes([len(img.comps)])
    for c in img.comps:
        p += bytes([c['id'], c['h'] * 16 + c['v'], c['tq']])
    return seg(m, p)


def sos(img, comp_idx, td, ta, ss=0, se=63, ah=0, al=0):
    p = bytes([len(comp_idx)])
    for ci in comp_idx:
        p += bytes([img.comps[ci]['id'], td[ci] * 16 + ta[ci]])
    return seg(0xDA, p + bytes([ss, se, ah * 16 + al]))


def dri(n):
    return seg(0xDD, n.to_bytes(2, 'big'))


SOI, EOI = b'\xff\xd8', b'\xff\xd9'


def choose_tables(T, mode, rng):
    tabs = {}
    for k, f in freqs(T).items():
        if mode == 'std' and all(s in (STD_AC if k[0] else STD_DC)[1] for s in f):
            tabs[k] = STD_AC if k[0] else STD_DC
        elif mode == 'skew':
            tabs[k] = skewed_table(sorted(f), rng)
        else:
            tabs[k] = optimal_table(f)
    return tabs


def encode(img, qts, mode='base', ri=0, huff='opt', script=None, td=None, ta=None, rng=None, extra=None,
           pad=1, fill=0, split_dht=False, eoi=True, sofm=None, dri_zero=False, maxrun=0x7FFF, parts=False):
    """mode 'base' | 'prog'.  script: list of (comp_idx list, ss, se, ah, al).  extra: bytes inserted after SOI.
    parts=True: list of ('seg'|'ecs', bytes) instead of bytes"""
    rng = rng or random.Random(1)
    n = len(img.comps)
    td = td or [0, 1, 1][:n]
    ta = ta or [0, 1, 1][:n]
    P = [('seg', SOI)]
    if extra:
        P.append(('seg', extra))
    used = sorted(set(c['tq'] for c in img.comps))
    for s in used:
        P.append(('seg', seg(0xDB, dqt_payload(s, qts[s]))))
    P.append(('seg', sof(sofm or (0xC0 if mode == 'base' else 0xC2), img)))
    if ri or dri_zero:
        P.append(('seg', dri(ri)))
    if mode == 'base':
        script = [(list(range(n)), 0, 63, 0, 0)]
    for (cidx, ss, se, ah, al) in script:
        if mode == 'base':
            T = tok_seq(img, cidx, ri, td, ta)
        elif ss == 0:
            T = tok_dc_first(img, cidx, ri, td, al) if ah == 0 else tok_dc_refine(img, cidx, ri, al)
        else:
            f = tok_ac_first if ah == 0 else tok_ac_refine
            T = f(img, cidx[0], ri, ta, ss, se, al, maxrun)
        tabs = choose_tables(T, huff, rng)
        if split_dht:
            for k in tabs:
                P.append(('seg', seg(0xC4, dht_payload(k[0], k[1], tabs[k]))))
        elif tabs:
            P.append(('seg', seg(0xC4, b''.join(dht_payload(k[0], k[1], tabs[k]) for k in tabs))))
        P.append(('seg', sos(img, cidx, td, ta, ss, se, ah, al)))
        P.append(('ecs', emit(T, tabs, pad, fill)))
    if eoi:
        P.append(('seg', EOI))
    return P if parts else b''.join(p[1] for p in P)


def rand_img(rng, w, h, samp, nac=3, dcr=60, acr=6, **kw):
    im = Img(w, h, samp, **kw)
    for c in im.comps:
        for row in c['blocks']:
            for b in row:
                b[0] = rng.randint(-dcr, dcr)
                for _ in range(rng.randint(0, nac)):
                    b[rng.choice(ZZ[1:12] if rng.random() < .7 else range(1, 64))] = rng.randint(-acr, acr)
    return im


SCRIPTS = {
    'jpeg3': [([0, 1, 2], 0, 0, 0, 1), ([0], 1, 5, 0, 2), ([2], 1, 63, 0, 1), ([1], 1, 63, 0, 1), ([0], 6, 63, 0, 2),
              ([0], 1, 63, 2, 1), ([0, 1, 2], 0, 0, 1, 0), ([2], 1, 63, 1, 0), ([1], 1, 63, 1, 0), ([0], 1, 63, 1, 0)],
    'jpeg1': [([0], 0, 0, 0, 1), ([0], 1, 5, 0, 2), ([0], 6, 63, 0, 2), ([0], 1, 63, 2, 1), ([0], 0, 0, 1, 0),
              ([0], 1, 63, 1, 0)],
    'simple3': [([0, 1, 2], 0, 0, 0, 0), ([0], 1, 63, 0, 0), ([1], 1, 63, 0, 0), ([2], 1, 63, 0, 0)],
    'simple1': [([0], 0, 0, 0, 0), ([0], 1, 63, 0, 0)],
}

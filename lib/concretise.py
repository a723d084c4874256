"""Turns a plan drawn from spec/Stream.tla into JPEG bytes.

plan -> Stream object: .data (bytes), .parts (list of Part, in order), .img, .qts, .cq (table used per component).
All random details (coefficient values, table contents, payloads) come from the seed, so a plan plus a seed is a
complete description of a stream."""
import random

from jpegenc import (ZZ, Img, STD_AC, STD_DC, SOI, EOI, seg, dqt_payload, dht_payload, sof, sos, dri, tok_seq,
                     tok_dc_first, tok_dc_refine, tok_ac_first, tok_ac_refine, freqs, emit, optimal_table, skewed_table)

SAMP = {'gray': [(1, 1)], 'gray22': [(2, 2)], 'gray21': [(2, 1)], 'gray12': [(1, 2)], '444': [(1, 1)] * 3,
        '422': [(2, 1), (1, 1), (1, 1)], '440': [(1, 2), (1, 1), (1, 1)], '420': [(2, 2), (1, 1), (1, 1)]}
BUDGET = 14000          # sum of |dequantised coefficient| of a block


class GrayImg(Img):
    """the only component of an image is coded like 1x1 whatever its sampling factors say"""

    def __init__(self, w, h, fac, tq):
        super().__init__(w, h, [(1, 1)], tqs=[tq])
        self.comps[0]['h'], self.comps[0]['v'] = fac


def block(rng, kind, q):
    """64 coefficients (natural order) of a class, within the budget for table q"""
    b = [0] * 64
    if kind == 'wild':
        # anything that can be coded: far more than 8-bit samples give
        big = lambda m: rng.choice([-1, 1]) * rng.choice([m, m - 1, rng.randint(0, m), rng.randint(0, m), m >> 1, 1023, 1024, 2047])
        b[0] = big(16383) if rng.random() < .8 else 0
        for _ in range(rng.choice([0, 0, 1, 2, 8, 63])):
            b[rng.randint(1, 63)] = big(32767) if rng.random() < .6 else rng.randint(-40, 40)
        return b
    k = kind if kind != 'mix' else rng.choice(['dc', 'sparse', 'dense', 'bigac', 'zrl', 'extreme', 'edge', 'hf', 'packed'])
    dcmax = min(1023, 8191 // q[0])
    if k in ('dc', 'sparse', 'dense', 'zrl', 'bigac', 'hf', 'packed'):
        b[0] = rng.randint(-min(dcmax, 900 // q[0] + 1), min(dcmax, 900 // q[0] + 1))
    elif k == 'extreme':
        b[0] = rng.choice([-dcmax, dcmax, dcmax // 2, -dcmax // 3, 0, 1, -1])
    elif k == 'flat':
        b[0] = 5
    if k == 'sparse':
        for _ in range(rng.randint(0, 4)):
            b[rng.choice(ZZ[1:12] if rng.random() < .7 else range(1, 64))] = rng.randint(-7, 7)
    elif k == 'dense':
        for i in range(1, 64):
            if rng.random() < .6:
                b[i] = rng.randint(-3, 3)
    elif k == 'bigac':
        for _ in range(rng.randint(1, 3)):
            s = rng.randint(1, 10)
            b[ZZ[rng.choice([1, 2, 3, 5, 9, 20, 40, 62, 63])]] = rng.choice([-1, 1]) * rng.randint(1 << (s - 1), (1 << s) - 1)
    elif k == 'zrl':
        for p in rng.sample([1, 16, 17, 18, 32, 33, 34, 35, 48, 49, 50, 61, 62, 63], rng.randint(1, 4)):
            b[ZZ[p]] = rng.randint(-40, 40)
    elif k == 'packed':
        # hardly a zero: long runs of correction bits in refinements
        top = 1 << rng.randint(1, 6)
        for i in range(1, 64):
            b[i] = rng.choice([-1, 1]) * rng.randint(top, 2 * top - 1)
        for i in rng.sample(range(1, 64), rng.randint(0, 4)):
            b[ZZ[i]] = rng.choice([0, 1, -1])
        if rng.random() < .4:
            b[ZZ[rng.randint(50, 63)]] = rng.choice([1, -1])
    elif k == 'hf':
        b[ZZ[rng.randint(1, 63)]] = rng.choice([-1, 1]) * rng.randint(1, 90)
    elif k == 'edge':
        # values around the limits of short codes and of the byte range
        b[0] = rng.choice([-1, 1]) * min(dcmax, rng.choice([1, 2, 127, 128, 255, 256, 511, 512, 1023]))
        for p in (1, 2, 3):
            b[ZZ[p]] = rng.choice([0, 31, 32, 33, -31, -32, -33, 63, 64, -64, 15, 16, -16, 127, -128, 1, -1])
    elif k == 'chroma':
        b[0] = rng.randint(-dcmax // 2, dcmax // 2)
        if rng.random() < .5:
            b[1], b[8] = rng.randint(-60 // q[1] - 1, 60 // q[1] + 1), rng.randint(-60 // q[8] - 1, 60 // q[8] + 1)
    tot = sum(abs(b[i]) * q[i] for i in range(64))
    i = 63
    while tot > BUDGET and i > 0:
        tot -= abs(b[ZZ[i]]) * q[ZZ[i]]
        b[ZZ[i]] = 0
        i -= 1
    return b


def qtable(rng, content):
    k = rng.random()
    if content in ('bigac', 'packed'):
        return [rng.randint(1, 3) for _ in range(64)]
    if content in ('extreme', 'edge'):
        return [rng.choice([1, 2, 8, 16])] + [rng.randint(1, 8) for _ in range(63)]
    if k < .15:
        return [rng.choice([1, 2, 3, 255, 254, 128, 127])for _ in range(64)]
    if k < .3:
        return [1] * 64
    if k < .6:
        return [rng.randint(1, 12) for _ in range(64)]
    return [rng.randint(1, 255) if rng.random() < .2 else rng.randint(1, 40) for _ in range(64)]


def uniform_table(symbols, rng, length=None):
    """all codes of the same length"""
    syms = list(symbols)
    rng.shuffle(syms)
    lo = len(syms).bit_length()
    n = length or rng.randint(lo, 16)
    cnt = [0] * 16
    cnt[n - 1] = len(syms)
    return (cnt, syms)


def ladder_table(symbols, freq, rng):
    """one code per length 1, 2, 3, ... up to 15, the rest with 16 bits"""
    syms = sorted(symbols, key=lambda s: (-freq.get(s, 0), s))
    cnt = [0] * 16
    left = len(syms)
    for i in range(15):
        # leave room: after i+1 single codes one leaf of length i+1 is free -> 2^(15-i) codes of 16 bits, minus ones
        if left > 0 and (1 << (15 - i)) - 1 >= left - 1:
            cnt[i] = 1
            left -= 1
    cnt[15] = left
    return (cnt, syms)


def table(kind, cls, freq, rng):
    used = sorted(freq) or [0]
    if kind == 'any':
        kind = rng.choice(['opt', 'std', 'skew', 'len16', 'uniform', 'ladder', 'full', 'extra'])
    std = STD_AC if cls else STD_DC
    if kind == 'std' and all(s in std[1] for s in used):
        return std
    if kind == 'skew':
        return skewed_table(used, rng)
    if kind == 'len16':
        return uniform_table(used, rng, 16)
    if kind == 'uniform':
        return uniform_table(used, rng)
    if kind == 'ladder':
        return ladder_table(used, freq, rng)
    if kind == 'full':
        return skewed_table(range(256) if cls else range(16), rng)
    if kind == 'extra':
        extra = set(used) | set(rng.sample(range(256 if cls else 16), 6))
        return skewed_table(sorted(extra), rng)
    return optimal_table(freq or {0: 1})


class Part:
    """one piece of the stream; kind: soi app com unknown dqt sof dht dri sos ecs eoi trail"""
    __slots__ = ('kind', 'data', 'info')

    def __init__(self, kind, data, info=None):
        self.kind, self.data, self.info = kind, data, info


class Stream:
    def __init__(self, parts, img, qts, plan):
        self.parts, self.img, self.qts, self.plan = parts, img, qts, plan

    @property
    def data(self):
        return b''.join(p.data for p in self.parts)


def make_image(plan, rng, qts):
    s = SAMP[plan['samp']]
    if len(s) == 1:
        im = GrayImg(plan['w'], plan['h'], s[0], plan['tq'][0])
    else:
        im = Img(plan['w'], plan['h'], s, tqs=plan['tq'])
    for c in im.comps:
        for row in c['blocks']:
            for x in range(len(row)):
                row[x] = block(rng, plan['content'], qts[c['tq']])
    return im


def clone_with(img, **kw):
    import copy
    o = copy.copy(img)
    o.__dict__.update(kw)
    return o


def scan_tokens(img, sc, ri, td, ta, base, maxrun):
    cidx = [c - 1 for c in sc['cs']]
    if base:
        return tok_seq(img, cidx, ri, td, ta)
    if sc['ss'] == 0:
        return tok_dc_first(img, cidx, ri, td, sc['al']) if sc['ah'] == 0 else tok_dc_refine(img, cidx, ri, sc['al'])
    f = tok_ac_first if sc['ah'] == 0 else tok_ac_refine
    return f(img, cidx[0], ri, ta, sc['ss'], sc['se'], sc['al'], maxrun)


def keep_units(img, cidx, toks, keep):
    """only the first keep[k] MCUs of restart interval k (baseline)"""
    n = 1 if len(cidx) == 1 else sum(img.comps[c]['h'] * img.comps[c]['v'] for c in cidx)
    out, k, b = [], 0, 0
    for t in toks:
        if t[0] == 'rst':
            k, b = k + 1, 0
            out.append(t)
            continue
        b += t[:2] == ('h', 0)
        if b <= keep[k] * n:
            out.append(t)
    return out


def payload(rng, n, like=False):
    if like:
        # bytes that look like markers and headers
        s = b''.join(rng.choice([b'\xff\xd8', b'\xff\xd9', b'\xff\xda', b'\xff\xc0\x00\x11', b'\xff\xc4', b'\xff\x00', b'\xff\xff',
                                 b'\xff\xdb\x00\x43\x00', b'\xff\xd0', b'\xff\xdd\0\4\0\1', b'\xff\xe1\0\x10', b'\xff', b'\xff\xda\0\x08\1\1\0\0\x3f\0']) for _ in range(rng.randint(1, 8)))
        return s
    return rng.randbytes(n)


KNOWN_APPS = [b'JFIF\0\1\2\0\0\1\0\1\0\0', b'JFIF\0\1\1\1\0\x48\0\x48\0\0', b'JFXX\0\x10' + bytes(10), b'Exif\0\0II*\0\x08\0\0\0\0\0', b'Exif\0\0MM\0*\0\0\0\x08\0\0',
              b'ICC_PROFILE\0\1\1' + bytes(range(40)), b'Adobe\0\x64\0\0\0\0\1', b'Adobe\0\x64\0\0\0\0\0', b'Adobe\0\x64\0\0\0\0\2', b'http://ns.adobe.com/xap/1.0/\0<x/>',
              b'MPF\0MM\0*', b'Ducky\0\1\0\4\0\0\0\x3c\0\0', b'Photoshop 3.0\0008BIM', b'AVI1\0\0\0\0\0\0\0\0']


def misc_size(rng, small):
    """mostly small, now and then up to the largest a segment can be"""
    if rng.random() < .06:
        return rng.choice([254, 255, 256, 257, 1000, 4095, 8190, 8193, 16384, 32765, 32766, 32767, 32768, 40000, 65531, 65532, 65533])
    return rng.choice(small)


def build(plan, seed, img=None, qts=None):
    """img/qts: re-encode this image instead of a random one (its content then does not depend on the plan)"""
    rng = random.Random(f'{seed}/plan')
    if qts is None:
        crng = random.Random(f'{seed}/content')
        qts = [qtable(crng, plan['content']) for _ in range(4)]
        img = make_image(plan, crng, qts)
    base = plan['mode'] == 'base'
    td, ta = plan['td'], plan['ta']
    n = len(img.comps)
    td, ta = list(td)[:n], list(ta)[:n]
    # tokens of every scan, with the restart interval in force
    ri, scans = 0, []
    for it in plan['items']:
        if it['t'] == 'dri':
            ri = it['ri']
        elif it['t'] == 'scan':
            scans.append(scan_tokens(img, it, ri, td, ta, base, plan['maxrun']))
    fr = [freqs(t) for t in scans]
    shared = base or rng.random() < .3
    allf = {}
    for f in fr:
        for k, d in f.items():
            a = allf.setdefault(k, {})
            for s, c in d.items():
                a[s] = a.get(s, 0) + c

    def fill():
        return b'\xff' * (rng.randint(0, plan['fill']) if plan['fill'] else 0)

    P = [Part('soi', SOI)]

    def add(kind, data, info=None):
        P.append(Part(kind, (fill() + data) if kind not in ('ecs', 'trail') else data, info))

    cur, later, si = {}, False, 0
    for it in plan['items']:
        t = it['t']
        if t == 'app':
            if rng.random() < .3:
                k = rng.choice(KNOWN_APPS)
                add('app', seg({b'J': 0xE0, b'E': 0xE1, b'h': 0xE1, b'I': 0xE2, b'M': 0xE2, b'P': 0xED, b'D': 0xEC}.get(k[:1], 0xEE if k[:2] == b'Ad' else 0xE0)
                               if rng.random() < .9 else 0xE0 + rng.randrange(16), k + payload(rng, rng.choice([0, 0, 1, 20]))))
            else:
                add('app', seg(0xE0 + rng.randrange(16), payload(rng, misc_size(rng, [0, 1, 2, 12, 14, 30]))))
        elif t == 'applike':
            add('app', seg(rng.choice([0xFE, 0xFE] + list(range(0xE0, 0xF0))), payload(rng, 0, True)))
        elif t == 'com':
            add('com', seg(0xFE, payload(rng, misc_size(rng, [0, 1, 5, 40]))))
        elif t == 'unknown':
            add('unknown', seg(rng.choice([0xF0, 0xF7, 0xFD, 0x02, 0xBF, 0xDF, 0xDE] + list(range(0xF0, 0xFE))),
                               payload(rng, misc_size(rng, [0, 3, 20]), rng.random() < .2)))
        elif t == 'dqt':
            pl = b''.join(dqt_payload(q, [rng.randint(1, 255) for _ in range(64)] if it['decoy'] else qts[q])
                          for q in it['slots'])
            add('dqt', seg(0xDB, pl), it)
        elif t == 'sof':
            add('sof', sof(0xC0 if base else 0xC2, img))
        elif t == 'dri':
            add('dri', dri(it['ri']), it)
        elif t == 'dht':
            pl = b''
            for k in map(tuple, it['tabs']):
                if it['decoy']:
                    tb = table('skew', k[0], {s: 1 for s in rng.sample(range(12 if k[0] == 0 else 200), 8)}, rng)
                    pl += dht_payload(k[0], k[1], tb)
                    cur.pop(k, None)
                    continue
                if shared:
                    f = allf.get(k, {})
                else:
                    f = next((x[k] for x in fr if k in x), {})
                cur[k] = table(plan['huff'], k[0], f, rng)
                pl += dht_payload(k[0], k[1], cur[k])
            add('dht', seg(0xC4, pl), it)
        elif t == 'scan':
            if si > 0:
                # decoys between scans, and tables of the coming scan
                need = [k for k in fr[si] if not shared or k not in cur]
                new = {k: table(plan['huff'], k[0], allf[k] if shared else fr[si][k], rng) for k in need}
                cur.update(new)
                if new:
                    if rng.random() < .5:
                        add('dht', seg(0xC4, b''.join(dht_payload(k[0], k[1], new[k]) for k in new)), None)
                    else:
                        for k in new:
                            add('dht', seg(0xC4, dht_payload(k[0], k[1], new[k])), None)
            cidx = [c - 1 for c in it['cs']]
            # table selectors a progressive scan does not use may be anything
            utd, uta = list(td), list(ta)
            if plan['mode'] == 'prog' and rng.random() < .6:
                for j in cidx:
                    if it['ss'] == 0:
                        uta[j] = rng.randrange(4)
                    if it['ss'] > 0 or it['ah'] > 0:
                        utd[j] = rng.randrange(4)
            add('sos', sos(img, cidx, utd, uta, it['ss'], it['se'], it['ah'], it['al']), it)
            toks = keep_units(img, cidx, scans[si], plan['keep']) if plan.get('keep') else scans[si]
            add('ecs', emit(toks, {k: cur[k] for k in fr[si]}, plan['pad'], fill=plan['fill']), si)
            si += 1
    add('eoi', EOI)
    if plan['trail']:
        add('trail', payload(rng, plan['trail'], rng.random() < .3))
    return Stream(P, img, qts, plan)


def reference_plan(plan):
    """plain baseline coding of the same image"""
    n = len(plan['tq'])
    h = [0] * n
    items = [{'t': 'dqt', 'slots': sorted(set(plan['tq'])), 'decoy': False}, {'t': 'sof'}, {'t': 'dri', 'ri': 0},
             {'t': 'dht', 'tabs': [[0, 0], [1, 0]], 'decoy': False},
             {'t': 'scan', 'cs': list(range(1, n + 1)), 'ss': 0, 'se': 63, 'ah': 0, 'al': 0}]
    return dict(plan, mode='base', td=h, ta=h, huff='std', fill=0, pad=1, trail=0, items=items, maxrun=32767)


def shaped(bits, cls, rng, prog=False, blocks=4):
    """a gray stream whose DC (cls 0) or AC table has these numbers of codes; every symbol that can occur does, at random"""
    n = sum(bits)
    if cls == 0:
        use = rng.sample(range(12), min(n, 12))
        vals = use + rng.sample([x for x in range(16) if x not in use], max(0, min(n, 16) - len(use)))
    else:
        norm = [r * 16 + z for r in range(16) for z in range(1, 6)] + [0xF0]
        use = [0] + rng.sample(norm, min(n - 1, len(norm)))
        use = use[:n]
        vals = use + rng.sample([x for x in range(256) if x not in use], n - len(use))
    vals += [0] * (n - len(vals))          # only where the code is too large anyway
    rng.shuffle(vals)
    tab = (list(bits), vals)
    other = uniform_table([0, 1, 2, 3] if cls else [0, 1, 2, 17, 33, 3], rng)
    tabs = {(cls, 0): tab, (1 - cls, 0): other}
    dcs = use if cls == 0 else [0, 1, 2, 3]
    acs = use if cls == 1 else [0, 1, 2, 17, 33, 3]
    left = list(acs)
    rng.shuffle(left)
    D, A, dc = [], [], 0
    for b in range(blocks):
        z = dcs[b % len(dcs)] if rng.random() < .8 else rng.choice(dcs)
        v = rng.randrange(1 << (z - 1), 1 << z) if z else 0
        if dc > 0 or (dc == 0 and rng.random() < .5):
            v = -v
        dc += v
        d = [('h', 0, 0, z)] + ([('b', v if v > 0 else v + (1 << z) - 1, z)] if z else [])
        a, k = [], 0
        while k < 63:
            ok = [x for x in left if (x == 0xF0 and k + 16 < 63) or (x & 15 and k + (x >> 4) + 1 <= 63)]
            if ok and rng.random() < .95:
                x = ok[0]
                left.remove(x)
                if not [y for y in left if y]:
                    left = list(acs)
                    rng.shuffle(left)
            else:
                x = 0
            if x == 0:
                break
            k += (x >> 4) + 1
            a.append(('h', 1, 0, x))
            if x & 15:
                a.append(('b', rng.getrandbits(x & 15), x & 15))
        if k < 63:
            a.append(('h', 1, 0, 0))
        D.append(d)
        A.append(a)
    img = Img.__new__(Img)
    img.w, img.h, img.comps = 8 * blocks, 8, [dict(id=1, h=1, v=1, tq=0)]
    try:
        if not prog:
            ecs = [emit([t for d, a in zip(D, A) for t in d + a], tabs)]
        else:
            ecs = [emit([t for d in D for t in d], tabs), emit([t for a in A for t in a], tabs)]
    except KeyError:
        ecs = [b'\0'] * (2 if prog else 1)
    q = [1] * 64
    out = SOI + seg(0xDB, dqt_payload(0, q)) + sof(0xC2 if prog else 0xC0, img) + seg(0xC4, dht_payload(cls, 0, tab) + dht_payload(1 - cls, 0, other))
    if prog:
        out += sos(img, [0], [0], [0], 0, 0, 0, 0) + ecs[0] + sos(img, [0], [0], [0], 1, 63, 0, 0) + ecs[1]
    else:
        out += sos(img, [0], [0], [0]) + ecs[0]
    return out + EOI


class Kit:
    """segments of one gray image for the sequences of Segments.tla"""
    SCANS = {'scan': (0, 63, 0, 0), 'dc': (0, 0, 0, 1), 'ac': (1, 63, 0, 1), 'dc2': (0, 0, 1, 0), 'ac2': (1, 63, 1, 0)}

    def __init__(self, rng, w=16, h=8):
        plan = dict(samp='gray', w=w, h=h, tq=[0], content='sparse')
        self.q = {k: [rng.randint(1, 40) for _ in range(64)] for k in ('q1', 'q2')}
        self.img = make_image(plan, rng, [self.q['q1']] * 4)
        self.tok = {}
        f = {}
        for k, (ss, se, ah, al) in self.SCANS.items():
            for ri in (0, 1):
                self.tok[k, ri] = t = scan_tokens(self.img, dict(cs=[1], ss=ss, se=se, ah=ah, al=al), ri, [0], [0], k == 'scan', 32767)
                for c, d in freqs(t).items():
                    f.setdefault(c[0], set()).update(d)
        self.tab = {}
        for c, n in ((0, 'd'), (1, 'a')):
            u = sorted(f.get(c, {0}) | {0, 1})
            self.tab[n + '1'] = skewed_table(u, rng)
            self.tab[n + '2'] = uniform_table(u, rng)

    def build(self, seq):
        out, ri, d, a = SOI, 0, 'd1', 'a1'
        for x in seq:
            if x in self.q:
                out += seg(0xDB, dqt_payload(0, self.q[x]))
            elif x in self.tab:
                out += seg(0xC4, dht_payload(x[0] == 'a', 0, self.tab[x]))
                if x[0] == 'd':
                    d = x
                else:
                    a = x
            elif x in ('base', 'prog'):
                out += sof(0xC0 if x == 'base' else 0xC2, self.img)
            elif x in ('r0', 'r1'):
                ri = int(x[1])
                out += dri(ri)
            elif x in self.SCANS:
                ss, se, ah, al = self.SCANS[x]
                out += sos(self.img, [0], [0], [0], ss, se, ah, al) + emit(self.tok[x, ri], {(0, 0): self.tab[d], (1, 0): self.tab[a]})
            else:
                out += {'com': seg(0xFE, b'hello'), 'eoi': EOI, 'soi': SOI, 'rst': b'\xff\xd0', 'dnl': seg(0xDC, bytes([0, 8])), 'dac': seg(0xCC, b'\0\0'),
                        'sof1': sof(0xC1, self.img)}[x]
        return out

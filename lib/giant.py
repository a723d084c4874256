"""Very large images, coded quickly.
Giant: constant blocks (DC coefficients only); the values are chosen so that with a quantiser of 8 the sample of a block is exactly
its value.  Tiled: any content, repeated."""
import random

from jpegenc import SOI, EOI, STD_AC, STD_DC, Img, code_map, dht_payload, dqt_payload, dri, freqs, seg, tok_ac_first, tok_ac_refine, tok_seq
from concretise import SAMP, block, build, qtable, reference_plan, table

DC = {k: format(c, f'0{n}b') for k, (c, n) in code_map(STD_DC).items()}
AC = {k: format(c, f'0{n}b') for k, (c, n) in code_map(STD_AC).items()}
# end-of-band runs need symbols the standard table lacks
RUN_TAB = ([0, 0, 0, 0, 15] + [0] * 11, [16 * r for r in range(15)])
RUN = {k: format(c, f'0{n}b') for k, (c, n) in code_map(RUN_TAB).items()}


def _diff(d):
    s = abs(d).bit_length()
    return DC[s] + (format(d if d > 0 else d + (1 << s) - 1, f'0{s}b') if s else '')


DIFF = {d: _diff(d) for d in range(-600, 601)}


def to_bytes(bits):
    if not bits:
        return b''
    bits += '1' * (-len(bits) % 8)
    return int(bits, 2).to_bytes(len(bits) // 8, 'big').replace(b'\xff', b'\xff\x00')


class Giant:
    """comps: dict(h, v, bw, bh (padded grid), nbw, nbh, rows of values 0..255)"""

    def __init__(self, samp, w, h, seed):
        rng = random.Random(f'giant/{samp}/{w}/{h}/{seed}')
        self.samp, self.w, self.h = samp, w, h
        s = SAMP[samp]
        self.hm, self.vm = s[0]
        self.mx, self.my = -(-w // (8 * self.hm)), -(-h // (8 * self.vm))
        self.comps = []
        for i, (hh, vv) in enumerate(s):
            bw, bh = self.mx * hh, self.my * vv
            nbw, nbh = -(-(-(-w * hh // self.hm)) // 8), -(-(-(-h * vv // self.vm)) // 8)
            rows = []
            for y in range(bh):
                if i == 0:
                    rows.append(rng.choices(range(256), k=bw))
                else:
                    # the same value for a few neighbouring blocks
                    r = []
                    while len(r) < bw:
                        r += [rng.randrange(256)] * rng.choice([1, 3, 4, 5, 6])
                    rows.append(r[:bw])
            self.comps.append(dict(h=hh, v=vv, bw=bw, bh=bh, nbw=nbw, nbh=nbh, rows=rows))

    def units(self, cidx):
        """values in coding order: list of MCUs, each a list of (component, value)"""
        if len(cidx) == 1:
            c = self.comps[cidx[0]]
            return [((cidx[0], v),) for row in c['rows'][:c['nbh']] for v in row[:c['nbw']]]
        out = []
        for my in range(self.my):
            rows = [(ci, [self.comps[ci]['rows'][my * self.comps[ci]['v'] + v] for v in range(self.comps[ci]['v'])], self.comps[ci]['h'])
                    for ci in cidx]
            for mx in range(self.mx):
                out.append([(ci, r[mx * hh + k]) for ci, rs, hh in rows for r in rs for k in range(hh)])
        return out

    def ecs(self, cidx, ri, tail, al=0):
        u = self.units(cidx)
        step = ri or len(u)
        out = []
        for k, a in enumerate(range(0, len(u), step)):
            pred = [0, 0, 0]
            bits = []
            for m in u[a:a + step]:
                for ci, v in m:
                    d = (v - 128) >> al
                    bits.append(DIFF[d - pred[ci]])
                    bits.append(tail)
                    pred[ci] = d
            if k:
                out.append(bytes([255, 0xD0 + (k - 1 & 7)]))
            out.append(to_bytes(''.join(bits)))
        return b''.join(out)

    def refine(self, cidx, ri):
        u = self.units(cidx)
        step = ri or len(u)
        out = []
        for k, a in enumerate(range(0, len(u), step)):
            if k:
                out.append(bytes([255, 0xD0 + (k - 1 & 7)]))
            out.append(to_bytes(''.join('01'[(v - 128) & 1] for m in u[a:a + step] for _, v in m)))
        return b''.join(out)

    def empty(self, ci, ri, maxrun):
        """an AC scan without coefficients"""
        c = self.comps[ci]
        n = c['nbw'] * c['nbh']
        step = ri or n
        out = []
        for k, a in enumerate(range(0, n, step)):
            left, bits = min(step, n - a), ''
            while left:
                e = min(left, maxrun)
                r = e.bit_length() - 1
                bits += RUN[16 * r] + (format(e - (1 << r), f'0{r}b') if r else '')
                left -= e
            if k:
                out.append(bytes([255, 0xD0 + (k - 1 & 7)]))
            out.append(to_bytes(bits))
        return b''.join(out)

    def sof(self, m):
        return seg(m, bytes([8]) + self.h.to_bytes(2, 'big') + self.w.to_bytes(2, 'big') + bytes([len(self.comps)]) +
                   b''.join(bytes([i + 1, c['h'] * 16 + c['v'], 0]) for i, c in enumerate(self.comps)))

    def sos(self, cidx, ss, se, ah=0, al=0):
        return seg(0xDA, bytes([len(cidx)]) + b''.join(bytes([c + 1, 0]) for c in cidx) + bytes([ss, se, ah * 16 + al]))

    def encode(self, prog=False, ri=0, al=0, split=False, maxrun=32767, ac=True):
        n = len(self.comps)
        al_c = list(range(n))
        d = SOI + seg(0xDB, dqt_payload(0, [8] * 64)) + self.sof(0xC2 if prog else 0xC0)
        if ri:
            d += dri(ri)
        d += seg(0xC4, dht_payload(0, 0, STD_DC) + dht_payload(1, 0, RUN_TAB if prog else STD_AC))
        if not prog:
            return d + self.sos(al_c, 0, 63) + self.ecs(al_c, ri, AC[0]) + EOI
        for cs in ([[c] for c in al_c] if split else [al_c]):
            d += self.sos(cs, 0, 0, 0, al) + self.ecs(cs, ri, '', al)
        if ac:
            for c in al_c:
                d += self.sos([c], 1, 63, 0, 0) + self.empty(c, ri, maxrun)
        if al:
            d += self.sos(al_c, 0, 0, 1, 0) + self.refine(al_c, ri)
        return d + EOI

    def record(self):
        """what PixelTrace needs: block values of the padded grid"""
        f = lambda c: [v for r in c['rows'] for v in r]
        r = dict(w=self.w, h=self.h, hm=self.hm, vm=self.vm, y=f(self.comps[0]), cb=[], cr=[])
        if len(self.comps) == 3:
            r['cb'], r['cr'] = f(self.comps[1]), f(self.comps[2])
        return r


class Tiled:
    """A large image with any content: a tile of P by Q MCUs repeated.  `small` is an image of the same tile with as many MCUs
    fewer as a whole number of tiles makes, and the same incomplete last row and column: every 8 by 8 cell of the large image
    looks like one of the small image."""

    def __init__(self, samp, w, h, seed, content='mix', P=3, Q=2):
        rng = random.Random(f'tiled/{samp}/{w}/{h}/{seed}/{content}')
        self.samp, self.w, self.h, self.P, self.Q = samp, w, h, P, Q
        s = SAMP[samp]
        self.hm, self.vm = s[0]
        n = len(s)
        self.tq = [rng.randrange(4) for _ in range(n)]
        self.qts = [qtable(rng, content) for _ in range(4)]
        cut = lambda m, p: m if m < p + 2 else p + 2 + (m - p - 2) % p
        self.mx, self.my = -(-w // (8 * self.hm)), -(-h // (8 * self.vm))
        self.sx, self.sy = cut(self.mx, P), cut(self.my, Q)
        self.sw, self.sh = w - (self.mx - self.sx) * 8 * self.hm, h - (self.my - self.sy) * 8 * self.vm
        self.grid = []
        for i, (hh, vv) in enumerate(s):
            self.grid.append(dict(h=hh, v=vv, nbw=-(-(-(-w * hh // self.hm)) // 8), nbh=-(-(-(-h * vv // self.vm)) // 8)))
        self.tile = [[[block(rng, content, self.qts[self.tq[i]]) for _ in range(P * hh)] for _ in range(Q * vv)] for i, (hh, vv) in enumerate(s)]
        img = Img(self.sw, self.sh, s, tqs=self.tq)
        for c, t in zip(img.comps, self.tile):
            for y, row in enumerate(c['blocks']):
                for x in range(len(row)):
                    row[x] = list(t[y % len(t)][x % len(t[0])])
        self.img = img
        self.rng = rng

    def small(self, seed=''):
        n = len(self.grid)
        plan = reference_plan(dict(samp=self.samp, mode='base', w=self.sw, h=self.sh, content='tile', tq=self.tq))
        return plan, build(plan, f'small{seed}', img=self.img, qts=self.qts)

    def _row(self, ci, y, n):
        """an image of one row of n blocks"""
        im = Img(8 * n, 8, [(1, 1)])
        t = self.tile[ci][y % len(self.tile[ci])]
        im.comps[0]['blocks'] = [[t[x % len(t)] for x in range(n)]]
        return im

    def _mcu(self, cidx, x, y):
        """(component, block) of an MCU of the tile"""
        return [(ci, self.tile[ci][y * self.grid[ci]['v'] + v][x * self.grid[ci]['h'] + k]) for ci in cidx for v in range(self.grid[ci]['v'])
                for k in range(self.grid[ci]['h'])]

    def _units(self, cidx):
        """(number of columns, rows, size of the tile, blocks of a unit)"""
        if len(cidx) > 1:
            return self.mx, self.my, self.P, self.Q, lambda x, y: self._mcu(cidx, x, y)
        g, t = self.grid[cidx[0]], self.tile[cidx[0]]
        return g['nbw'], g['nbh'], len(t[0]), len(t), lambda x, y: [(cidx[0], t[y][x])]

    def _tokens(self, cidx, ss, se, ah, al, prev, blocks, base):
        """tokens of one MCU after the blocks `prev`"""
        T, pred = [], {}
        for ci, b in prev or ():
            pred[ci] = b[0] >> al
        one = Img(8, 8, [(1, 1)])
        for ci, b in blocks:
            one.comps[0]['blocks'][0][0] = b
            if ss == 0 and ah:
                T.append(('b', (b[0] >> al) & 1, 1))
                continue
            if ss == 0:
                v = b[0] >> al
                d = v - pred.get(ci, 0)
                pred[ci] = v
                n = abs(d).bit_length()
                T += [('h', 0, 0, n), ('b', d if d >= 0 else d + (1 << n) - 1, n)]
                if base:
                    T += tok_seq(one, [0], 0, [0], [0])[2:]
            else:
                T += (tok_ac_refine if ah else tok_ac_first)(one, 0, 0, [0], ss, se, al)
        return T

    def encode(self, script=None, ri=0, huff='std', runs=True):
        """script: list of (components, ss, se, ah, al); None: baseline"""
        n, base = len(self.grid), script is None
        script = script or [(list(range(n)), 0, 63, 0, 0)]
        d = [SOI] + [seg(0xDB, dqt_payload(q, self.qts[q])) for q in sorted(set(self.tq))]
        d.append(seg(0xC0 if base else 0xC2, bytes([8]) + self.h.to_bytes(2, 'big') + self.w.to_bytes(2, 'big') + bytes([n]) +
                     b''.join(bytes([i + 1, c['h'] * 16 + c['v'], self.tq[i]]) for i, c in enumerate(self.grid))))
        if ri:
            d.append(dri(ri))
        for cidx, ss, se, ah, al in script:
            nx, ny, P, Q, at = self._units(cidx)
            rows = None
            if ss and not ri and runs:
                # end-of-band runs within a row of blocks
                f = tok_ac_refine if ah else tok_ac_first
                rows = [f(self._row(cidx[0], y, nx), 0, 0, [0], ss, se, al) for y in range(min(Q, ny))]
                toks = rows
            else:
                memo = {}
                seq = []
                for i in range(nx * ny):
                    y, x = divmod(i, nx)
                    key = (x % P, y % Q)
                    if ss == 0 and not ah:
                        key += (None,) if i == 0 or ri and i % ri == 0 else (((i - 1) % nx) % P, ((i - 1) // nx) % Q)
                    seq.append(key)
                for key in set(seq):
                    prev = at(*key[2:]) if len(key) == 4 else None
                    memo[key] = self._tokens(cidx, ss, se, ah, al, prev, at(*key[:2]), base)
                toks = list(memo.values())
            fr = {}
            for t in toks:
                for k, f in freqs(t).items():
                    g = fr.setdefault(k, {})
                    for s, c in f.items():
                        g[s] = g.get(s, 0) + c
            tabs = {k: table(huff, k[0], f, self.rng) for k, f in fr.items()}
            if (1, 0) not in tabs and not ss and base:
                tabs[(1, 0)] = STD_AC
            cm = {k: {s: format(c, f'0{l}b') for s, (c, l) in code_map(t).items()} for k, t in tabs.items()}
            txt = lambda T: ''.join(cm[(t[1], t[2])][t[3]] if t[0] == 'h' else format(t[1], f'0{t[2]}b') if t[2] else '' for t in T)
            if tabs:
                d.append(seg(0xC4, b''.join(dht_payload(k[0], k[1], t) for k, t in tabs.items())))
            d.append(seg(0xDA, bytes([len(cidx)]) + b''.join(bytes([c + 1, 0]) for c in cidx) + bytes([ss, se, ah * 16 + al])))
            if rows is not None:
                r = [txt(t) for t in rows]
                d.append(to_bytes(''.join(r[y % Q] for y in range(ny))))
                continue
            m = {k: txt(t) for k, t in memo.items()}
            step = ri or len(seq)
            for k, a in enumerate(range(0, len(seq), step)):
                if k:
                    d.append(bytes([255, 0xD0 + (k - 1 & 7)]))
                d.append(to_bytes(''.join(m[x] for x in seq[a:a + step])))
        d.append(EOI)
        return b''.join(d)

    def script(self, rng):
        """a progression over the components of the image"""
        n = len(self.grid)
        al = rng.choice([0, 1, 2])
        cut = rng.choice([1, 2, 5, 20])
        a = list(range(n))
        sc = [(a, 0, 0, 0, al)] if rng.random() < .7 else [([c], 0, 0, 0, al) for c in a]
        for c in a:
            sc += [([c], 1, cut, 0, al), ([c], cut + 1, 63, 0, al)]
        for k in range(al, 0, -1):
            sc += [([c], 1, 63, k, k - 1) for c in a] + [(a, 0, 0, k, k - 1)]
        return sc

    def record(self):
        return dict(w=self.w, h=self.h, hm=self.hm, vm=self.vm, P=self.P, Q=self.Q, bx=self.mx, by=self.my, sx=self.sx, sy=self.sy, sw=self.sw)

"""Single faults put into good streams (the names are the Faults of spec/Stream.tla).  Each function takes a Stream (made
without fill bytes) and returns the bytes of a faulty one, or None if the fault does not apply to it.  What must happen is
decided by spec/Decoder.tla, not here."""
from concretise import Part
from jpegenc import seg, SOI, EOI, dht_payload, dqt_payload


def join(parts):
    return b''.join(p.data if isinstance(p, Part) else p for p in parts)


def idx(s, kind, n=0):
    k = [i for i, p in enumerate(s.parts) if p.kind == kind]
    return k[n] if n < len(k) else None


def repl(s, i, data):
    return join(s.parts[:i] + [data] + s.parts[i + 1:])


def insert(s, i, data):
    return join(s.parts[:i] + [data] + s.parts[i:])


def header_slot(s, rng, after_sof=None):
    """a place between header segments, or between the scans of a progressive image"""
    i = idx(s, 'sos')
    if s.plan['mode'] == 'prog' and rng.random() < .35:
        ok = [j for j in range(i + 1, len(s.parts)) if s.parts[j].kind in ('sos', 'dht', 'app', 'com', 'dri', 'dqt', 'eoi')]
        return rng.choice(ok)
    lo = 1 if not after_sof else idx(s, 'sof') + 1
    return rng.randint(lo, i)


def with_len(b, delta):
    n = b[2] * 256 + b[3] + delta
    return b[:2] + bytes([n >> 8, n & 255]) + b[4:]


def sof_edit(f):
    def g(s, rng):
        i = idx(s, 'sof')
        b = bytearray(s.parts[i].data)
        r = f(s, b, rng)
        return None if r is False else repl(s, i, bytes(b if r is None else r))
    return g


def _set(b, i, v):
    b[i] = v


def sof_ncomp(n):
    def f(s, b, rng):
        have = b[9]
        if have == n:
            return False
        comps = [bytes(b[10 + 3 * k:13 + 3 * k]) for k in range(have)]
        while len(comps) < n:
            comps.append(bytes([len(comps) + 1, 0x11, 0]))
        comps = comps[:n]
        pl = bytes(b[4:9]) + bytes([n]) + b''.join(comps)
        return seg(b[1], pl)
    return sof_edit(f)


def samp(choices, comp=None):
    def f(s, b, rng):
        k = rng.randrange(b[9]) if comp is None else comp
        if k >= b[9]:
            return False
        v = rng.choice(choices)
        if b[11 + 3 * k] == v:
            return False
        b[11 + 3 * k] = v
    return sof_edit(f)


def sos_edit(f):
    def g(s, rng):
        n = sum(1 for p in s.parts if p.kind == 'sos')
        i = idx(s, 'sos', 0 if rng.random() < .5 else rng.randrange(n))
        if i is None:
            return None
        b = bytearray(s.parts[i].data)
        r = f(s, b, rng)
        return None if r is False else repl(s, i, bytes(b if r is None else r))
    return g


def dht_bad(f):
    """replaces or adds a Huffman table segment in the headers"""
    def g(s, rng):
        return insert(s, header_slot(s, rng), seg(0xC4, f(s, rng)))
    return g


def overfull(s, rng):
    # more codes of some length than the code space holds
    k = rng.choice([0, 0, 1, 2, 3, 6])
    cnt = [0] * 16
    cnt[k] = (1 << (k + 1)) + 1 if rng.random() < .5 else 1 << (k + 1)
    if cnt[k] == 1 << (k + 1):
        cnt[min(15, k + 1 + rng.randrange(3))] += 1
    vals = list(range(sum(cnt)))
    cls = rng.randrange(2) if sum(cnt) <= 16 else 1
    return dht_payload(cls, rng.randrange(4), (cnt, [v & 255 for v in vals]))


def short_table(s, rng):
    cnt = [0] * 16
    cnt[rng.randint(4, 15)] = rng.randint(2, 12)
    n = sum(cnt)
    return bytes([rng.choice([0, 1, 16, 17])]) + bytes(cnt) + bytes(range(n))[:rng.randint(0, n - 1)]


def std(cls, dst, rng, extra=b''):
    cnt = [0, 1, 2] + [0] * 13
    return bytes([cls * 16 + dst]) + bytes(cnt) + bytes([0, 1, 2]) + extra


def missing(kind):
    def g(s, rng):
        if kind == 'dqt':
            k = [i for i, p in enumerate(s.parts) if p.kind == 'dqt']
            return join(p for i, p in enumerate(s.parts) if i not in k)
        # a table number that nothing defines, in the first scan
        i = idx(s, 'sos')
        b = bytearray(s.parts[i].data)
        used = set()
        for p in s.parts[:i]:
            if p.kind == 'dht':
                for t in p.info['tabs']:
                    used.add(tuple(t))
        free = [d for d in range(4) if ((0 if kind == 'dc' else 1), d) not in used]
        if kind == 'ac' and s.plan['mode'] == 'prog' or not free:
            return None
        k = rng.randrange(b[4])
        d = rng.choice(free + ([5, 9, 15] if rng.random() < .2 else []))
        v = b[6 + 2 * k]
        b[6 + 2 * k] = (d << 4 | v & 15) if kind == 'dc' else (v & 0xF0 | d)
        return repl(s, i, bytes(b))
    return g


def missing_later_ac(s, rng):
    """an AC scan of a progressive image whose table does not exist"""
    if s.plan['mode'] != 'prog':
        return None
    used = set()
    for p in s.parts:
        if p.kind == 'dht' and p.info:
            used |= {tuple(t) for t in p.info['tabs']}
    sos = [i for i, p in enumerate(s.parts) if p.kind == 'sos' and p.info['ss'] > 0]
    free = [d for d in range(4) if (1, d) not in used]
    if not sos or not free:
        return None
    i = rng.choice(sos)
    b = bytearray(s.parts[i].data)
    b[6] = b[6] & 0xF0 | rng.choice(free)
    return repl(s, i, bytes(b))


def base_multi(s, rng):
    """a baseline image whose first scan has fewer components than the frame"""
    if s.plan['mode'] != 'base' or len(s.img.comps) != 3:
        return None
    i = idx(s, 'sos')
    n = rng.choice([1, 2])
    cs = rng.sample([1, 2, 3], n) if rng.random() < .3 else list(range(1, n + 1))
    pl = bytes([n]) + b''.join(bytes([c, s.plan['td'][c - 1] << 4 | s.plan['ta'][c - 1]]) for c in cs) + bytes([0, 63, 0])
    return repl(s, i, seg(0xDA, pl))


def prog_scan(f):
    def g(s, rng):
        if s.plan['mode'] != 'prog':
            return None
        sos = [i for i, p in enumerate(s.parts) if p.kind == 'sos']
        i = rng.choice(sos)
        b = f(s, s.parts[i], rng)
        return None if b is None else repl(s, i, b)
    return g


def mix_dc_ac(s, p, rng):
    b = bytearray(p.data)
    if p.info['ss'] == 0:
        b[-2] = rng.choice([1, 5, 63])
    else:
        b[-3] = 0
    return bytes(b)


def inter_ac(s, p, rng):
    if len(s.img.comps) != 3 or p.info['ss'] == 0:
        return None
    n = rng.choice([2, 3])
    pl = bytes([n]) + b''.join(bytes([c, s.plan['td'][c - 1] << 4 | s.plan['ta'][c - 1]]) for c in range(1, n + 1)) + p.data[-3:]
    return seg(0xDA, pl)


def cut_headers(s, rng):
    n = len(join(s.parts[:idx(s, 'sos')]))
    return s.data[:rng.randint(0, n)]


def eoi_early(s, rng):
    i = rng.randint(1, idx(s, 'sos'))
    return join(s.parts[:i]) + EOI + (join(s.parts[i:]) if rng.random() < .5 else b'')


def second_sof(s, rng):
    i = idx(s, 'sof')
    j = rng.randint(i + 1, idx(s, 'sos'))
    b = bytearray(s.parts[i].data)
    if rng.random() < .5:
        b[1] ^= 2
    return insert(s, j, bytes(b))


def extra_sof(s, rng):
    """a frame header of another type in addition to the right one, anywhere before the last scan"""
    i = idx(s, 'sof')
    b = bytearray(s.parts[i].data)
    b[1] = rng.choice([0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF])
    if b[1] in (0xC0, 0xC2) or rng.random() < .4:
        # after the right one; in progressive images also between scans
        ok = [j for j in range(i + 1, len(s.parts)) if s.parts[j].kind in ('sos', 'dht', 'app', 'com', 'dri', 'dqt', 'eoi')]
        if s.plan['mode'] == 'base':
            ok = [j for j in ok if j <= idx(s, 'sos')]
        j = rng.choice(ok)
    else:
        j = rng.randint(1, i)
    return insert(s, j, bytes(b))


def dqt16(s, rng):
    return insert(s, header_slot(s, rng), seg(0xDB, bytes([0x10 | rng.randrange(4)]) + bytes([0, 1] * 64)))


def dqt_trunc(s, rng):
    n = rng.randint(1, 64)
    whole = dqt_payload(0, [1] * 64) if rng.random() < .4 else b''
    return insert(s, header_slot(s, rng), seg(0xDB, whole + (bytes([rng.randrange(4)]) + bytes([3] * 64))[:n]))


def dqt_dest(s, rng):
    return insert(s, header_slot(s, rng), seg(0xDB, bytes([rng.choice([4, 5, 8, 15])]) + bytes([3] * 64)))


def not_soi(s, rng):
    d = s.data
    return rng.choice([b'', b'\xff', b'\xd8\xff' + d[2:], b'\x00' + d, b'\x89PNG\r\n' + d[6:], d[2:], b'\xff\xd9' + d[2:], b'\xfe\xd8' + d[2:],
                       b'\xff\xd0' + d[2:]])


def sof_other(s, b, rng):
    b[1] = rng.choice([0xC1, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF])


def precision(s, b, rng):
    b[4] = rng.choice([0, 1, 7, 9, 10, 12, 16, 255])


def ids(s, b, rng):
    n = b[9]
    if n == 1:
        b[10] = rng.choice([0, 2, 3, 4, 5, 82, 255])
        return
    new = rng.choice([[0, 1, 2], [1, 2, 4], [1, 1, 2], [1, 2, 2], [82, 71, 66], [3, 2, 1], [1, 3, 2], [2, 1, 3], [1, 2, 5], [0, 2, 3]])
    for k in range(3):
        b[10 + 3 * k] = new[k]


def tq_big(s, b, rng):
    b[12 + 3 * rng.randrange(b[9])] = rng.choice([4, 5, 7, 255])


def zero_dim(s, b, rng):
    k = rng.choice([5, 7])
    b[k] = b[k + 1] = 0


def chroma_samp(s, b, rng):
    if b[9] != 3:
        return False
    for k in rng.choice([[1], [2], [1, 2]]):
        b[11 + 3 * k] = rng.choice([0x21, 0x12, 0x22, 0x41])


def sos_unknown(s, b, rng):
    b[5 + 2 * rng.randrange(b[4])] = rng.choice([0, 4, 5, 17, 255] + ([2, 3] if len(s.img.comps) == 1 else []))


def sos_dup(s, b, rng):
    if b[4] < 2:
        return False
    i, j = rng.sample(range(b[4]), 2)
    b[5 + 2 * i] = b[5 + 2 * j]


FAULTS = {
    'magic': not_soi,
    'sof_type': sof_edit(sof_other),
    'precision': sof_edit(precision),
    'ncomp0': sof_ncomp(0), 'ncomp2': sof_ncomp(2), 'ncomp4': sof_ncomp(4), 'ncomp5': sof_ncomp(5),
    'comp_ids': sof_edit(ids),
    'samp_zero': samp([0x00, 0x10, 0x01, 0x20, 0x02]),
    'samp_odd': samp([0x31, 0x13, 0x33, 0x41, 0x14, 0x44, 0x24, 0x42, 0x81, 0x15], 0),
    'samp_chroma': sof_edit(chroma_samp),
    'sof_len': lambda s, rng: repl(s, idx(s, 'sof'), with_len(s.parts[idx(s, 'sof')].data, rng.choice([-3, -1, 1, 2, 3, 100]))),
    'sof_count': sof_edit(lambda s, b, rng: _set(b, 9, rng.choice([x for x in (1, 2, 3, 4) if x != b[9]]))),
    'second_sof': second_sof, 'extra_sof': extra_sof,
    'zero_dim': sof_edit(zero_dim),
    'tq': sof_edit(tq_big),
    'dqt16': dqt16, 'dqt_trunc': dqt_trunc, 'dqt_dest': dqt_dest,
    'dht_class': dht_bad(lambda s, rng: std(rng.choice([2, 3, 8, 15]), rng.randrange(4), rng)),
    'dht_dest': dht_bad(lambda s, rng: std(rng.randrange(2), rng.choice([4, 5, 9, 15]), rng)),
    'dht_overfull': dht_bad(overfull),
    'dht_short': dht_bad(short_table),
    'dht_many': dht_bad(lambda s, rng: bytes([16]) + bytes([0] * 14 + [200, 200]) + bytes(range(200)) * 2),
    'dht_dcsym': dht_bad(lambda s, rng: bytes([rng.randrange(4)]) + bytes([0, 1, 1] + [0] * 13) + bytes([0, rng.choice([16, 17, 32, 255])])),
    'dht_left': dht_bad(lambda s, rng: std(rng.randrange(2), rng.randrange(4), rng, bytes(rng.randint(1, 16)))),
    'sos_len': sos_edit(lambda s, b, rng: with_len(bytes(b), rng.choice([-2, -1, 1, 2, 5]))),
    'sos_count': sos_edit(lambda s, b, rng: _set(b, 4, rng.choice([x for x in (0, 1, 2, 3, 4, 5) if x != b[4]]))),
    'sos_unknown': sos_edit(sos_unknown),
    'sos_dup': sos_edit(sos_dup),
    'no_qt': missing('dqt'), 'no_dc': missing('dc'), 'no_ac': missing('ac'), 'no_ac_later': missing_later_ac,
    'no_sof': lambda s, rng: join(p for p in s.parts if p.kind != 'sof'),
    'eoi_early': eoi_early, 'cut_headers': cut_headers,
    'dac': lambda s, rng: insert(s, header_slot(s, rng), seg(0xCC, bytes([0, 16]))),
    'dnl': lambda s, rng: insert(s, header_slot(s, rng), seg(0xDC, bytes([0, 16]))),
    'dri_len': lambda s, rng: insert(s, header_slot(s, rng), seg(0xDD, bytes(rng.choice([0, 1, 3, 4])))),
    'base_multi': base_multi,
    'prog_mix': prog_scan(mix_dc_ac), 'prog_inter': prog_scan(inter_ac),
    'prog_ahal': prog_scan(lambda s, p, rng: bytes(p.data[:-1]) + bytes([rng.choice([0xE0, 0x0E, 0xF1, 0x1F])])),
}

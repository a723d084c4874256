"""What each check generates and records.  Judging is done by the TLA+ modules (core.check_abs: DecodeTrace, core.check_hist:
ObjectTrace, core.check_pixels: PixelTrace)."""
import copy
import os
import random
import shutil

import concretise as K
import run as R
import tlc as T
from core import abs_case, any_meta, check_abs, check_hist, check_pixels, Hist, meta, NOSTREAM
from faults import FAULTS
from giant import Giant, Tiled
from jpegenc import dqt_payload, EOI, Img, seg, SOI

ALL = ['gray', '444', '422', '440', '420']
COLOR = ['444', '422', '440', '420']
GRAYS = ['gray22', 'gray21', 'gray12']
CONTENTS = ['dc', 'flat', 'sparse', 'dense', 'bigac', 'zrl', 'hf', 'extreme', 'edge', 'chroma', 'mix', 'packed']
HUFFS = ['opt', 'std', 'skew', 'len16', 'uniform', 'ladder', 'full', 'extra']
W1 = [1, 2, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 41, 48]
H1 = [1, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 40]
BIGW = [64, 65, 97, 128, 130, 161, 200]
BIGH = [33, 40, 49, 64, 65, 81, 97]


def is_gray(plan):
    return plan['samp'].startswith('gray')


def streams(ctx, plans, tag):
    """(plan, stream) pairs"""
    return [(p, K.build(p, f'{ctx.seed}/{ctx.round}/{tag}/{i}')) for i, p in enumerate(plans)]


def acases(ctx, pairs, gray_out=.15, **kw):
    r = []
    for p, s in pairs:
        g = is_gray(p)
        cs = 'GRAY' if ctx.rng.random() < gray_out else 'YCC'
        r.append(abs_case(s.data, p, cs=cs, gray=g or cs == 'GRAY', unsafe=ctx.rng.random() < .7, threads=ctx.rng.choice([1, 2, 4, 7]), **kw))
    return r


def reference(ctx, s):
    return K.build(K.reference_plan(s.plan), 'ref', img=s.img, qts=s.qts)


def fam(ctx, name, pairs, rng, spaces=('RGB', 'YCC', 'RGBA', 'GRAY', 'RGBX'), ref=True, ncs=1, variants=('x86',)):
    """one family: other codings of one image, and its plain baseline coding, decoded with the same colourspaces"""
    p0, s0 = pairs[0]
    hs = []
    ms = [meta(s, name) for _, s in pairs]
    rf = reference(ctx, s0)
    for cs in rng.sample(list(spaces), ncs):
        for (p, s), m in zip(pairs, ms):
            h = Hist(variant=rng.choice(variants)).new(cs=cs, un=rng.random() < .7, th=rng.choice([1, 2, 3, 4, 8]), **(dict(ms=1000) if m[0]['scans'] > 60 else {})).decode(m)
            h.note = f'{K_brief(p)}'
            hs.append(h)
        if ref:
            h = Hist().new(cs=cs).decode(meta(rf, name))
            h.note = 'reference (plain baseline) coding of the image'
            hs.insert(0, h)
    return (name, hs)


def K_brief(p):
    from core import brief
    return str(brief(p))


def relate(ctx, plans, tag, **kw):
    fams = []
    for i, ps in enumerate(streams(ctx, plans, tag)):
        fams.append(fam(ctx, f'{tag}{i}', [ps], ctx.rng, **kw))
    check_hist(ctx, fams)


def giants(ctx, tag, cases, timeout_s=60):
    """cases: (samp, w, h, encode options, colourspace, threads); see giant.py"""
    sess, recs, imgs = [], [], {}
    for i, (sa, w, h, kw, cs, th) in enumerate(cases):
        g = imgs.get((sa, w, h))
        if g is None:
            g = imgs[(sa, w, h)] = Giant(sa, w, h, f'{ctx.seed}/{ctx.round}')
        sess.append([R.opts(cs, ctx.rng.random() < .8, th, 65535, 65535), 'C8x8:' + g.encode(**kw).hex()])
        recs.append(g)
    res = R.run(ctx.bin(), sess, timeout_s=timeout_s, jobs=4)
    ctx.calls += len(sess)
    out, reps = [], {}
    for i, ((sa, w, h, kw, cs, th), ss, rs) in enumerate(zip(cases, sess, res)):
        r = rs[-1]
        note = f'{sa} {w}x{h} {kw} {cs} threads={th}'
        rep = dict(note=note, session=';'.join(ss)[:200000])
        if r.kind == 'skipped':
            continue
        if r.kind != 'ok' or (r.w, r.h) != (w, h):
            ctx.violation(f'{r.kind} {r.w}x{r.h}: a good stream was not decoded; {note}', dict(rep, kind='pixels'))
            continue
        n = 1 if sa == 'gray' else {'GRAY': 1, 'YCC': 3, 'RGB': 3, 'RGBA': 4}[cs]
        out.append(dict(recs[i].record(), t='cells', id=f'{tag}{i}', n=n, cs=cs, cells=list(r.px)))
        reps[f'{tag}{i}'] = rep
        ctx.distinct.add(note)
    ctx.count('giant_images', len(out))
    check_pixels(ctx, out, reps)


NCH = {'GRAY': 1, 'YCC': 3, 'RGB': 3, 'RGBA': 4, 'RGBX': 4}


def tiled(ctx, sa, w, h, content, kw):
    """a Tiled image and its stream; kw: prog, ri, huff, runs"""
    t = Tiled(sa, w, h, f'{ctx.seed}/{ctx.round}', content)
    sc = t.script(random.Random(f'{ctx.seed}/{ctx.round}/{sa}{w}{h}')) if kw.get('prog') else None
    return t, t.encode(sc, kw.get('ri', 0), kw.get('huff', 'std'), kw.get('runs', True))


def tiles(ctx, tag, cases, timeout_s=60, absolute=True, variant='x86'):
    """cases: (samp, w, h, content, encode options, colourspace, threads); see giant.Tiled"""
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        made = list(ex.map(_tiled, [(ctx.seed, ctx.round, *c[:5]) for c in cases]))
    sess, acs, seen = [], [], set()
    for (sa, w, h, content, kw, cs, th), (t, data) in zip(cases, made):
        un = kw.get('un', ctx.rng.random() < .8)
        plan, st = t.small()
        sess.append([R.opts(cs, un, th, 65535, 65535), 'H8x8:' + data.hex()])
        sess.append([R.opts(cs, un, 4, 65535, 65535), 'H8x8:' + st.data.hex()])
        if (sa, w, h, content) not in seen:
            seen.add((sa, w, h, content))
            acs.append(abs_case(st.data, plan, gray=is_gray(plan), unsafe=un, note='small image of a tile'))
    res = R.run(ctx.bin(variant), sess, timeout_s=timeout_s, jobs=4)
    ctx.calls += len(sess)
    out, reps = [], {}
    for i, ((sa, w, h, content, kw, cs, th), (t, data)) in enumerate(zip(cases, made)):
        a, b = res[2 * i][-1], res[2 * i + 1][-1]
        note = f'{sa} {w}x{h} {content} {kw} {cs} threads={th} {variant}'
        rep = dict(note=note, sessions=[';'.join(x)[:400000] for x in sess[2 * i:2 * i + 2]])
        if 'skipped' in (a.kind, b.kind):
            continue
        bad = [r for r, ww, hh in ((a, w, h), (b, t.sw, t.sh)) if r.kind != 'ok' or (r.w, r.h) != (ww, hh)]
        n = 1 if sa == 'gray' else NCH[cs]
        if bad or a.n != w * h * n:
            ctx.violation(f'{(bad + [a])[0].kind} {a.w}x{a.h} {a.n} bytes: a good stream was not decoded; {note}', dict(rep, kind='pixels'))
            continue
        ints = lambda px: [int.from_bytes(px[k:k + 4], 'big') for k in range(0, len(px), 4)]
        out.append(dict(t.record(), t='tiles', id=f'{tag}{i}', big=ints(a.px), small=ints(b.px)))
        reps[f'{tag}{i}'] = rep
        ctx.distinct.add(note)
    ctx.count('tiled_images', len(out))
    check_pixels(ctx, out, reps)
    if absolute:
        ctx.log(check_abs(ctx, acs, variant=variant))


def _tiled(a):
    class C:
        pass
    c = C()
    c.seed, c.round = a[:2]
    return tiled(c, *a[2:])


# =================================================================================================== C01
def c01(ctx, s):
    ps = ctx.plans(int(420 * s), Modes=['base'], Samps=ALL, Ws=W1, Hs=H1, Contents=CONTENTS, Huffs=HUFFS, QSlots=range(4), HSlots=range(4),
                   RIs=[0, 0, 1, 3, 7])
    big = ctx.plans(24, 'big', Modes=['base'], Samps=ALL, Ws=BIGW, Hs=BIGH, Contents=['mix', 'sparse', 'dense', 'extreme'], Huffs=HUFFS,
                    QSlots=range(4), HSlots=range(4), RIs=[0, 5])
    ctx.log(check_abs(ctx, acases(ctx, streams(ctx, ps, 'a') + streams(ctx, big, 'big'))))
    r = ctx.rng
    tiles(ctx, 't', [(sa, w, h, c, dict(huff=r.choice(['std', 'opt', 'skew', 'len16'])), r.choice(['YCC', 'YCC', 'RGB', 'GRAY']), r.choice([1, 4]))
                     for sa in ALL for w, h, c in ((r.randint(900, 2500), r.randint(300, 800), 'mix'), (r.randint(3000, 20000), r.randint(17, 60), 'dense'),
                                                   (r.randint(10, 50), r.randint(3000, 20000), 'sparse'))])


# =================================================================================================== C02
def c02(ctx, s):
    sp = dict(Modes=['prog'], Samps=ALL + ['gray22'], Contents=CONTENTS, Huffs=HUFFS, QSlots=range(3), HSlots=range(4), RIs=[0, 0, 2],
              MaxAl=3, MaxRuns=[0, 1, 3, 100, 32767], MiscMax=1)
    ps = ctx.plans(int(500 * s), Ws=W1, Hs=H1, **sp)
    relate(ctx, ps, 'r', spaces=('RGB', 'YCC', 'GRAY'))
    big = ctx.plans(40, 'big', Ws=BIGW, Hs=BIGH, **sp)
    relate(ctx, big, 'b', spaces=('RGB', 'YCC'))
    # many refinement scans
    for al, n in ((5, 60), (9, 40), (13, 40)):
        hi = ctx.plans(int(n * s), f'al{al}', Ws=[1, 8, 17, 33], Hs=[1, 9, 16], depth=500,
                       **dict(sp, MaxAl=al, MinAl=al - 3, CutSets='CSmall', Contents=['bigac', 'extreme', 'edge', 'sparse', 'mix'], MiscMax=0))
        relate(ctx, hi, f'al{al}-', spaces=('RGB', 'YCC'))
    # blocks with hardly a zero
    relate(ctx, ctx.plans(int(80 * s), 'packed', Ws=[1, 8, 17], Hs=[1, 9, 16], **dict(sp, MaxAl=2, MinAl=1, Contents=['packed'], CutSets='CSmall')), 'p', spaces=('RGB', 'YCC'))
    # long EOB runs: many empty blocks
    huge = ctx.plans(4, 'huge', Ws=[1000, 1461], Hs=[300, 1470], **dict(sp, Samps=['gray'], Contents=['flat'], RIs=[0], MaxAl=1,
                                                                     CutSets='CSmall', MaxRuns=[32767, 20000]))
    relate(ctx, huge, 'h', spaces=('GRAY',))
    ctx.log(check_abs(ctx, acases(ctx, streams(ctx, ctx.plans(int(160 * s), 'abs', Ws=W1[:14], Hs=H1[:11], **sp), 'a'))))
    giants(ctx, 'g', [('gray', 2104, 2104, dict(prog=True, maxrun=32767), 'GRAY', 4), ('420', 30000, 33, dict(prog=True, al=1), 'RGBA', 4),
                      ('444', 9, 20000, dict(prog=True, split=True), 'YCC', 8), ('422', 65535, 8, dict(prog=True, al=1, maxrun=1000), 'RGB', 3)])
    r = ctx.rng
    tiles(ctx, 't', [(sa, w, h, c, dict(prog=True, huff=r.choice(['std', 'opt', 'skew']), ri=r.choice([0, 0, 0, 11])), r.choice(['YCC', 'RGB', 'GRAY']), r.choice([1, 4]))
                     for sa in ALL for w, h, c in ((r.randint(700, 1500), r.randint(300, 700), 'mix'), (r.randint(3000, 12000), r.randint(17, 40), 'sparse'),
                                                   (r.randint(10, 40), r.randint(3000, 12000), 'bigac'))])
    # every legal scan script for small numbers of bands and bits
    one = dict(Contents=['mix'], Huffs=['opt'])
    for tag, o in (('gray', dict(one, Samps=['gray'], Ws=[9], Hs=[17], MaxAl=2, CutSets='CSmall', RIs=[0])),
                   ('bands', dict(one, Samps=['gray'], Ws=[17], Hs=[9], MaxAl=1, CutSets='C3', RIs=[0])),
                   ('comps', dict(one, Samps=['444', '422', '440', '420'], Ws=[9], Hs=[9], MaxAl=0, CutSets='C1', RIs=[0, 1]))):
        relate(ctx, ctx.scripts(tag, **o), 'all-' + tag, spaces=('YCC',))
    if s > 1:
        ps = ctx.scripts('many', **dict(one, Samps=['420'], Ws=[9], Hs=[9], MaxAl=0, CutSets='C2', RIs=[0]))
        relate(ctx, [ps[i] for i in sorted(ctx.rng.sample(range(len(ps)), 8000))], 'all-many', spaces=('YCC',))


# =================================================================================================== C03
def c03(ctx, s):
    ris = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 40, 200, 1000, 65535]
    sp = dict(Samps=ALL + ['gray22'], Contents=['sparse', 'dense', 'mix', 'dc', 'zrl'], Huffs=['opt', 'std', 'any'], RIs=ris, MiscMax=2,
              Pads=[0, 1], Fills=[0, 0, 2], MaxRuns=[1, 5, 32767])
    ps = ctx.plans(int(520 * s), Ws=W1 + [64, 100], Hs=H1 + [64], Modes=['base', 'prog'], **sp)
    relate(ctx, ps, 'r', spaces=('RGB', 'YCC', 'GRAY', 'RGBA'))
    for al, n in ((4, 50), (13, 40)):
        hi = ctx.plans(int(n * s), f'al{al}', Ws=[9, 17, 33], Hs=[9, 17, 25], depth=500,
                       **dict(sp, Modes=['prog'], RIs=[1, 2, 3, 5], MaxAl=al, MinAl=al - 3, CutSets='CSmall', Contents=['bigac', 'extreme', 'packed', 'sparse'], MiscMax=0))
        relate(ctx, hi, f'al{al}-', spaces=('RGB', 'YCC'))
    # every interval from 1 to the number of MCUs + 2, for a few images
    fams = []
    for k, p in enumerate(ctx.plans(int(16 * s), 'all', Ws=[17, 33, 40, 48], Hs=[9, 17, 24, 40], Modes=['base', 'prog'], **sp)):
        s0 = K.build(p, f'{ctx.seed}/{ctx.round}/all/{k}')
        pairs = []
        for ri in range(0, 24):
            q = dict(p, items=[dict(x, ri=ri) if x['t'] == 'dri' else x for x in p['items']])
            pairs.append((q, K.build(q, f'all/{ri}', img=s0.img, qts=s0.qts)))
        fams.append(fam(ctx, f'all{k}', pairs, ctx.rng))
    check_hist(ctx, fams)
    ctx.log(check_abs(ctx, acases(ctx, streams(ctx, ctx.plans(int(120 * s), 'abs', Ws=W1, Hs=H1, Modes=['base', 'prog'], **sp), 'a'))))
    giants(ctx, 'g', [('gray', 2104, 2104, dict(ri=1), 'GRAY', 4), ('gray', 2104, 2104, dict(ri=1, prog=True), 'GRAY', 4),
                      ('420', 4000, 700, dict(ri=3), 'YCC', 4), ('444', 1600, 1600, dict(ri=35000), 'YCC', 4), ('gray', 4500, 2000, dict(ri=65535), 'GRAY', 4),
                      ('gray', 4500, 2000, dict(ri=65535, prog=True, al=1), 'GRAY', 4), ('422', 3000, 900, dict(ri=32768, prog=True), 'YCC', 4)])
    r = ctx.rng
    tiles(ctx, 't', [(sa, r.randint(700, 1500), r.randint(300, 700), 'mix', dict(prog=pr, huff=r.choice(['std', 'opt', 'skew']), ri=r.choice([1, 2, 3, 8, 50, 333, 3000, 65535])),
                      r.choice(['YCC', 'RGB', 'GRAY']), 4) for sa in ALL for pr in (False, False, True)])
    restart_cases(ctx)


def restart_cases(ctx):
    """every case of Restart.tla: grids of MCUs and intervals; one scan, and two with different intervals"""
    rng = ctx.rng
    groups = {}
    for c in ctx.cases('RestartCases', 'Restart.cfg') + ctx.cases('RestartCases', 'Restart2.cfg'):
        groups.setdefault(tuple(c['grid']), []).append(c['ris'])
    fams = []
    for g, cases in sorted(groups.items()):
        for sa in ALL:
            hm, vm = K.SAMP[sa][0] if sa != 'gray' else (1, 1)
            n = len(K.SAMP[sa])
            w, h = 8 * hm * g[0] - rng.choice([0, rng.randrange(8)]), 8 * vm * g[1] - rng.choice([0, rng.randrange(8)])
            plan = K.reference_plan(dict(samp=sa, mode='base', w=w, h=h, content=rng.choice(['mix', 'sparse', 'dense']), tq=[0] * n))
            s0 = K.build(plan, f'{ctx.seed}/{ctx.round}/rc/{g}/{sa}')
            pairs = []
            for ris in cases:
                scan = lambda cs, a, b: dict(t='scan', cs=cs, ss=a, se=b, ah=0, al=0)
                dri = lambda r: dict(t='dri', ri=r)
                if len(ris) == 1:
                    # the last interval before the scan counts
                    before = [dri(rng.choice([1, 1, 2, 3]))] if rng.random() < (.6 if ris[0] == 0 else .2) else []
                    tail = before + [dri(ris[0]), scan(list(range(1, n + 1)), 0, 63)]
                elif sa != 'gray' and rng.random() < .7:
                    continue
                else:
                    tail = [dri(ris[0]), scan(list(range(1, n + 1)), 0, 0), dri(ris[1])] + [scan([c], 1, 63) for c in range(1, n + 1)]
                q = dict(plan, mode='base' if len(ris) == 1 else 'prog', items=[x for x in plan['items'] if x['t'] not in ('dri', 'scan')] + tail)
                pairs.append((q, K.build(q, f'rc/{g}/{ris}', img=s0.img, qts=s0.qts)))
            fams.append(fam(ctx, f'rc{g}{sa}', pairs, rng))
    check_hist(ctx, fams)


# =================================================================================================== C04
def pixels_of(ctx, data, spaces, unsafe=True, threads=4, variant='x86'):
    """decodes to several colourspaces; list of results"""
    return [[R.opts(cs, unsafe, threads), 'd:' + data.hex()] for cs in spaces]


def color_cases(ctx, pairs, tag, spaces=('YCC', 'RGB', 'RGBA', 'RGBX', 'GRAY'), sub=None, variant='x86'):
    """PixelTrace "color" cases; sub: indices of the pixels to check (None: all)"""
    sess, where = [], []
    for i, (p, st) in enumerate(pairs):
        un, th = ctx.rng.random() < .6, ctx.rng.choice([1, 2, 4])
        for cs in spaces:
            sess.append([R.opts(cs, un, th), 'd:' + st.data.hex()])
            where.append((i, cs, un))
    res = R.run(ctx.bin(variant), sess)
    ctx.calls += len(sess)
    by = {}
    cases, reps = [], {}
    for (i, cs, un), ss, rs in zip(where, sess, res):
        r = rs[-1]
        p, st = pairs[i]
        if r.kind == 'skipped':
            continue
        if r.kind != 'ok':
            ctx.violation(f'{r.kind}: a good stream was not decoded to {cs}', dict(kind='pixels', session=';'.join(ss), plan=p))
            continue
        by.setdefault(i, {})[cs] = r.px
        reps.setdefault(f'{tag}{i}', dict(note=f'unsafe={un} {K_brief(p)}', sessions=[], plan=p))['sessions'].append(';'.join(ss)[:60000])
    for i, d in by.items():
        if 'YCC' not in d or 'RGB' not in d:
            continue
        p, st = pairs[i]
        w, h = p['w'], p['h']
        f = {}
        for cs, px in d.items():
            n = NCH[cs]
            if sub is None or len(px) != w * h * n:
                f[cs] = list(px)
            else:
                f[cs] = [px[q * n + k] for q in sub[i] for k in range(n)]
        if sub is not None:
            w, h = len(sub[i]), 1
        cases.append(dict(t='color', id=f'{tag}{i}', w=w, h=h, ycc=f['YCC'], rgb=f['RGB'], rgba=f.get('RGBA', []), rgbx=f.get('RGBX', []),
                          gray=f.get('GRAY', []), tol=2))
    check_pixels(ctx, cases, reps)


def crop_cases(ctx, n, tag):
    """pairs of streams with the same blocks and two declared sizes in the same MCU grid"""
    rng = ctx.rng
    plans = ctx.plans(n, tag, Samps=ALL, Modes=['base', 'prog'], Ws=[16, 32, 48, 64], Hs=[16, 32, 48], Contents=['mix', 'sparse', 'chroma'])
    sess, spec = [], []
    for k, p in enumerate(plans):
        big = K.build(p, f'{ctx.seed}/{ctx.round}/{tag}/{k}')
        hm, vm = K.SAMP[p['samp']][0]
        # progressive AC scans skip blocks outside the image; a crop keeps all block columns of non-interleaved components
        cut = 7 if p['mode'] == 'prog' else 8 * hm - 1
        cuth = 7 if p['mode'] == 'prog' else 8 * vm - 1
        w, h = p['w'] - rng.randint(0, cut), p['h'] - rng.randint(0, cuth)
        data = bytearray(big.data)
        sof = next(x for x in big.parts if x.kind == 'sof').data
        at = bytes(data).index(sof)
        small = bytes(data[:at + 5]) + bytes([h >> 8, h & 255, w >> 8, w & 255]) + bytes(data[at + 9:])
        cs = rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA'])
        for d in (big.data, small):
            sess.append([R.opts(cs, rng.random() < .6, rng.choice([1, 3, 4])), 'd:' + d.hex()])
        spec.append((p, w, h, cs))
    res = R.run(ctx.bin(), sess)
    ctx.calls += len(sess)
    cases, reps = [], {}
    for k, (p, w, h, cs) in enumerate(spec):
        a, b = res[2 * k][-1], res[2 * k + 1][-1]
        rep = dict(note=f'{w}x{h} of {K_brief(p)} {cs}', sessions=[';'.join(sess[2 * k]), ';'.join(sess[2 * k + 1])], plan=p)
        if 'skipped' in (a.kind, b.kind):
            continue
        bad = [r for r in (a, b) if r.kind != 'ok']
        if bad:
            ctx.violation(f'{bad[0].kind}: a good stream was not decoded; {rep["note"]}', dict(rep, kind='pixels'))
            continue
        n = 1 if is_gray(p) else {'YCC': 3, 'RGB': 3, 'RGBA': 4, 'GRAY': 1}[cs]
        if len(a.px) != p['w'] * p['h'] * n:
            ctx.violation(f'length of the output; {rep["note"]}', dict(rep, kind='pixels'))
            continue
        cases.append(dict(t='crop', id=f'{tag}{k}', w=w, h=h, bw=p['w'], n=n, big=list(a.px), small=list(b.px)))
        reps[f'{tag}{k}'] = rep
    check_pixels(ctx, cases, reps)


def all_sizes(ctx):
    """every size within the first MCUs, as a crop of the whole MCUs"""
    rng = ctx.rng
    sess, spec = [], []
    for sa in ALL:
        hm, vm = K.SAMP[sa][0]
        for cols in (1, 2, 3):
            rows = rng.choice([1, 2])
            for mode in ('base', 'prog'):
                W, H = 8 * hm * cols, 8 * vm * rows
                n = len(K.SAMP[sa])
                plan = ctx.plans(1, f'all{sa}{cols}{mode}', Samps=[sa], Modes=[mode], Ws=[W], Hs=[H], Contents=['mix'], MaxAl=1)[0]
                big = K.build(plan, f'{ctx.seed}/{ctx.round}/all/{sa}/{cols}')
                sof = next(x for x in big.parts if x.kind == 'sof').data
                at = big.data.index(sof)
                for cs in ('YCC', 'GRAY', 'RGB', 'RGBA') if n == 3 else ('GRAY',):
                    sess.append([R.opts(cs, True, 4), 'd:' + big.data.hex()])
                    b = len(sess) - 1
                    # progressive AC scans skip blocks that are outside of the image
                    for w in range(W - (8 * hm if mode == 'base' else 8) + 1, W + 1):
                        for h in {H, rng.randint(H - 7, H), rng.randint(H - (8 * vm if mode == 'base' else 8) + 1, H)}:
                            small = big.data[:at + 5] + bytes([h >> 8, h & 255, w >> 8, w & 255]) + big.data[at + 9:]
                            sess.append([R.opts(cs, rng.random() < .6, rng.choice([1, 4])), 'd:' + small.hex()])
                            spec.append((plan, w, h, cs, b, len(sess) - 1))
    res = R.run(ctx.bin(), sess)
    ctx.calls += len(sess)
    cases, reps = [], {}
    for k, (p, w, h, cs, bi, si) in enumerate(spec):
        a, b = res[bi][-1], res[si][-1]
        rep = dict(note=f'{w}x{h} of {K_brief(p)} {cs}', sessions=[';'.join(sess[bi]), ';'.join(sess[si])], plan=p)
        if 'skipped' in (a.kind, b.kind):
            continue
        n = 1 if is_gray(p) else NCH[cs]
        if a.kind != 'ok' or b.kind != 'ok' or len(a.px) != p['w'] * p['h'] * n:
            ctx.violation(f'{a.kind} {b.kind}: a good stream was not decoded; {rep["note"]}', dict(rep, kind='pixels'))
            continue
        cases.append(dict(t='crop', id=f's{k}', w=w, h=h, bw=p['w'], n=n, big=list(a.px), small=list(b.px)))
        reps[f's{k}'] = rep
    check_pixels(ctx, cases, reps)


def c04(ctx, s):
    sp = dict(Samps=ALL + GRAYS, Contents=['dc', 'sparse', 'chroma'], Huffs=['opt', 'std'], Modes=['base', 'prog'], RIs=[0, 0, 4])
    ps = ctx.plans(int(380 * s), Ws=list(range(1, 50)), Hs=list(range(1, 50)), **sp)
    long = ctx.plans(int(30 * s), 'long', Ws=[1, 3, 8, 17, 90, 130, 257, 300, 515], Hs=[1, 2, 8, 19, 70, 100, 150, 260],
                     **dict(sp, Contents=['dc']))
    long = [p for p in long if p['w'] * p['h'] < 30000]
    ctx.log(check_abs(ctx, acases(ctx, streams(ctx, ps, 'a') + streams(ctx, long, 'l'))))
    # the other output colourspaces, row tails of every length
    tails = ctx.plans(int(110 * s), 'tails', Ws=list(range(1, 70)), Hs=list(range(1, 35)), **dict(sp, Samps=COLOR))
    color_cases(ctx, streams(ctx, tails, 't'), 't')
    crop_cases(ctx, int(120 * s), 'crop')
    all_sizes(ctx)
    # very wide and very high images against their progressive/baseline twin
    ext = ctx.plans(int(14 * s), 'ext', Ws=[1, 9, 4097, 10000, 16384], Hs=[1, 9, 17, 3000, 16384], **dict(sp, Contents=['dc'], MaxAl=1, CutSets='CSmall'))
    ext = [p for p in ext if p['w'] * p['h'] < 400000]
    relate(ctx, ext, 'e', spaces=('RGB', 'RGBA', 'YCC', 'GRAY'))
    for sa, k in (('gray', 0), ('444', 1), ('422', 2), ('440', 3), ('420', 4)):
        r = ctx.rng
        giants(ctx, f'g{sa}-', [
            (sa, 65535, 2 + 8 * (k & 1), dict(prog=r.random() < .5), 'YCC', 4), (sa, 3, 65535, dict(prog=r.random() < .5), 'YCC', 4),
            (sa, r.randint(65521, 65535), 17, dict(prog=True), 'RGBA', 2), (sa, r.randint(65521, 65535), 17, {}, 'RGB', 4),
            (sa, 17, r.randint(65521, 65535), dict(prog=bool(k & 1)), 'RGB', 4), (sa, r.randint(30000, 65535), 25, dict(prog=not k & 1), 'GRAY', 3),
            (sa, r.randint(2000, 4000), r.randint(700, 1300), dict(prog=r.random() < .5), r.choice(['YCC', 'RGB', 'RGBA']), 4)])
    r = ctx.rng
    wide = lambda: r.choice([r.randint(2048, 65535 // 16) * 16, r.randint(2049, 65535 // 16) * 16 - 8, r.randint(32769, 65535), r.randint(16, 1000) * 16, r.randint(1000, 16384)])
    tiles(ctx, 't', [(sa, *(wh if k < 5 else wh[::-1]), r.choice(['mix', 'sparse', 'chroma']), dict(prog=r.random() < .4), cs, r.choice([2, 4]))
                     for sa in ALL for k, cs in enumerate(['YCC', 'RGB', 'RGBA', 'GRAY', 'RGBX', 'RGB', 'GRAY', 'RGBA']) for wh in [(wide(), r.randint(1, 33))]])
    ctx.model('Geometry')


# =================================================================================================== C05
def cube(ctx, k):
    """4:4:4 image of constant blocks: all pairs of two channels, the third varied"""
    rng = random.Random(f'{ctx.seed}/{ctx.round}/cube/{k}')
    n = 64                                  # blocks per side
    img = Img(8 * n, 8 * n, [(1, 1)] * 3, tqs=[0, 0, 0])
    vals = [i for i in range(256)]
    for y in range(n):
        for x in range(n):
            # 4096 of the 65536 pairs per image: the low bits by position, the high bits by k
            a = (x * 4 + k % 4) % 256
            b = (y * 4 + (k // 4) % 4) % 256
            c = rng.choice([0, 255, a, b, 255 - a, rng.randrange(256)])
            trip = ((a, b, c), (a, c, b), (c, a, b))[rng.randrange(3)]
            for ci in range(3):
                blk = [0] * 64
                blk[0] = trip[ci] - 128
                img.comps[ci]['blocks'][y][x] = blk
    qts = [[8] * 64] * 4
    plan = dict(samp='444', mode='base', w=8 * n, h=8 * n, content='cube', tq=[0, 0, 0])
    st = K.build(K.reference_plan(plan), 'cube', img=img, qts=qts)
    st.plan['content'] = f'cube{k}'
    # one pixel of each block, in every position of the 16-pixel groups
    sub = [(8 * y + rng.randrange(8)) * 8 * n + 8 * x + rng.randrange(8) for y in range(n) for x in range(n)]
    return (st.plan, st), sub


def c05(ctx, s):
    cs = [cube(ctx, k) for k in range(16)]
    color_cases(ctx, [c[0] for c in cs], 'cube', sub=[c[1] for c in cs])
    ps = ctx.plans(int(150 * s), Samps=COLOR, Ws=W1 + [47, 63, 64, 65, 100], Hs=H1, Contents=['chroma', 'extreme', 'mix', 'dc', 'edge'], Huffs=['opt'])
    color_cases(ctx, streams(ctx, ps, 'c'), 'c')
    color_cases(ctx, streams(ctx, ps[:int(30 * s)], 'cs'), 'cs', variant='scalar')
    color_cases(ctx, streams(ctx, ps[int(30 * s):int(60 * s)], 'cx'), 'cx', variant='sse')
    color_cases(ctx, [c[0] for c in cs[::5]], 'cubes', sub=[c[1] for c in cs[::5]], variant='scalar')
    color_cases(ctx, [c[0] for c in cs[2::5]], 'cubex', sub=[c[1] for c in cs[2::5]], variant='sse')
    r = ctx.rng
    tiles(ctx, 't', [(sa, r.randint(500, 1100), r.randint(200, 500), 'mix', {}, cs, 4) for sa in COLOR for cs in ('RGB', 'RGBA', 'RGBX')])
    # gray streams: every colourspace; colour streams: CMYK and YCCK refused
    fams = []
    for k, (p, st) in enumerate(streams(ctx, ctx.plans(int(90 * s), 'g', Samps=['gray', 'gray', 'gray22', '444', '420'], Ws=W1, Hs=H1), 'g')):
        m = meta(st, f'g{k}')
        hs = []
        for c in ['RGB', 'GRAY', 'YCC', 'RGBA', 'RGBX', 'CMYK', 'YCCK']:
            h = Hist().new(cs=c, un=ctx.rng.random() < .7).decode(m)
            h.note = K_brief(p)
            hs.append(h)
            hs.append(Hist().new().space(c).decode(m).query())
            hs[-1].note = K_brief(p)
        fams.append((f'g{k}', hs))
    check_hist(ctx, fams)


# =================================================================================================== C06
def c06(ctx, s):
    sp = dict(Samps=ALL + ['gray22'], Contents=['sparse', 'mix', 'dc'], Huffs=['opt', 'std'], RIs=[0, 0, 6])
    ps = ctx.plans(int(60 * s), Ws=[8, 17, 40, 100, 260], Hs=[1, 16, 40, 72, 130, 200, 300], **sp)
    pairs = streams(ctx, ps, 'a')
    # damaged streams: the outcome (often an error in the middle) must not depend on the threads either
    bad = []
    for p, st in pairs[:int(20 * s)]:
        d = bytearray(st.data)
        e = next(i for i, x in enumerate(st.parts) if x.kind == 'ecs')
        a = len(b''.join(x.data for x in st.parts[:e]))
        for _ in range(3):
            d[ctx.rng.randrange(a, len(d))] = ctx.rng.randrange(256)
        bad.append(bytes(d) if ctx.rng.random() < .6 else bytes(st.data[:ctx.rng.randrange(a, len(st.data))]))
    fams = []
    for k, m in enumerate([meta(st, f'a{i}') for i, (p, st) in enumerate(pairs)] + [any_meta(b) for b in bad]):
        cs = ctx.rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA'])
        un = ctx.rng.random() < .8
        hs = []
        for th in [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 32, 61]:
            for _ in range(2 if th < 9 else 1):
                hs.append(Hist().new(cs=cs, un=un, th=th).decode(m))
                hs[-1].note = f'threads={th} ' + (K_brief(pairs[k][0]) if k < len(pairs) else 'damaged')
        fams.append((f'a{k}', hs))
    check_hist(ctx, fams)
    # several decoders at once in one process
    for par in (4, 16):
        fams = []
        for k, (p, st) in enumerate(pairs[:24]):
            m = meta(st, f'p{k}')
            hs = [Hist().new(cs=ctx.rng.choice(['RGB', 'GRAY']), th=th).decode(m) for th in ctx.rng.sample([1, 2, 3, 4, 8, 16], 4)]
            for h in hs:
                h.note = f'{par} decoders at once ' + K_brief(p)
            fams.append((f'p{k}', hs))
        # neighbouring lines run together: mixed families
        check_hist(ctx, fams, par=par, jobs=2, shuffle=True)
    giants(ctx, 'g', [(sa, w, h, dict(prog=pr), 'YCC', th) for sa, w, h, pr in (('420', 1600, 1200, False), ('444', 900, 1500, True), ('422', 40, 6000, False))
                      for th in (1, 8, 16, 64)])
    r = ctx.rng
    tiles(ctx, 't', [(sa, 1200, 1000, 'mix', dict(prog=pr), 'RGB', th) for sa, pr in (('420', False), ('444', True), ('422', False), ('gray', True)) for th in (1, 3, 16, 60)],
          absolute=False)
    # schedules of the model, replayed exactly
    try:
        ctx.bin('sched')
    except RuntimeError as e:
        # the code no longer fits the stand-in thread pool; the real pool has been checked above
        ctx.log('replayed schedules left out:', str(e)[-300:])
    else:
        sched_part(ctx, pairs, bad, int(40 * s))
    ctx.model('Bands')


def sched_part(ctx, pairs, bad, n):
    out = T._simulate('BandsGen.tla', 'BandsGen.cfg', n, ctx.subseed('sched'), 200)
    sch = T.parse_lines(out, 'SCHED')
    ctx.count('schedules', len(sch))
    fams = []
    for k, m in enumerate([meta(st, f's{i}') for i, (p, st) in enumerate(pairs[:30])] + [any_meta(b) for b in bad[:8]]):
        cs = ctx.rng.choice(['RGB', 'YCC', 'GRAY'])
        hs = [Hist().new(cs=cs, th=4).decode(m)]
        hs[0].note = 'real thread pool'
        pick = ctx.rng.sample(sch, min(6, len(sch))) + [[0] * 400 + [10 ** 6] * 0, [0] * 400, [1, 0] * 200]
        # all bands deferred, then last to first
        pick.append([0] * 64 + [64] * 64)
        for x in pick:
            h = Hist(variant='sched')
            h.new(cs=cs, th=4)
            h.ops[0] = h.ops[0]
            h.sched = x
            h.decode(m)
            h.note = f'schedule {x[:20]}'
            hs.append(h)
        fams.append((f's{k}', hs))
    for _, hs in fams:
        for h in hs:
            if h.variant == 'sched':
                h.ops.insert(1, 'sch:' + '.'.join(map(str, h.sched)))
                h.ev.insert(1, dict(op='query'))
    check_hist(ctx, fams)


# =================================================================================================== C07
def c07(ctx, s):
    sp = dict(Samps=ALL + ['gray22'], Contents=CONTENTS, Huffs=['opt', 'std', 'skew'], QSlots=range(4), RIs=[0, 0, 3])
    ps = ctx.plans(int(420 * s), Ws=W1 + [50, 63, 64, 65, 79, 100], Hs=H1 + [65], Modes=['base', 'base', 'prog'], **sp)
    ps += ctx.plans(int(160 * s), 'wild', Ws=[1, 8, 16, 17, 33], Hs=[1, 8, 9, 17], Modes=['base', 'base', 'prog'], **dict(sp, Contents=['wild'], Huffs=['opt', 'skew']))
    ps += ctx.plans(int(24 * s), 'big', Ws=[200, 257, 320], Hs=[100, 133, 180], Modes=['base', 'prog'], **sp)
    fams = []
    for k, (p, st) in enumerate(streams(ctx, ps, 'a')):
        m = meta(st, f'a{k}')
        cs = ctx.rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA', 'RGBX', 'RGB'])
        hs = []
        for v, un in (('scalar', False), ('x86', True), ('x86', False), ('scalar', True), ('sse', True)):
            h = Hist(variant=v).new(cs=cs, un=un).decode(m)
            h.note = f'build={v} unsafe={un} cs={cs} {K_brief(p)}'
            hs.append(h)
        fams.append((f'a{k}', hs))
    # arbitrary coefficients, also outside what an encoder would write: damaged entropy data
    for k, (p, st) in enumerate(streams(ctx, ps[:int(100 * s)], 'd')):
        d = bytearray(st.data)
        e = next(i for i, x in enumerate(st.parts) if x.kind == 'ecs')
        a = len(b''.join(x.data for x in st.parts[:e]))
        for _ in range(ctx.rng.randint(1, 6)):
            i = ctx.rng.randrange(a, len(d))
            d[i] = ctx.rng.randrange(255)
        m = any_meta(bytes(d))
        cs = ctx.rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA'])
        hs = []
        for v, un in (('scalar', False), ('x86', True), ('x86', False), ('sse', True)):
            h = Hist(variant=v).new(cs=cs, un=un).decode(m)
            h.note = f'damaged, build={v} unsafe={un} cs={cs} {K_brief(p)}'
            hs.append(h)
        fams.append((f'd{k}', hs))
    r = ctx.rng
    for k in range(int(40 * s)):
        sa, kw = r.choice(ALL), dict(prog=r.random() < .3)
        w, h = r.choice([(r.randint(300, 1500), r.randint(200, 600)), (r.randint(1500, 33000), r.randint(1, 30)), (r.randint(1, 30), r.randint(1500, 9000))])
        m = any_meta(tiled(ctx, sa, w, h, r.choice(CONTENTS), kw)[1])
        cs = ctx.rng.choice(['RGB', 'YCC', 'RGBA', 'RGBX'])
        hs = []
        for v, un in (('scalar', False), ('x86', True), ('x86', False), ('sse', True)):
            h1 = Hist(variant=v).new(cs=cs, un=un, mw=65535, mh=65535).decode(m)
            h1.note = f'build={v} unsafe={un} cs={cs} {sa} {w}x{h} {kw}'
            hs.append(h1)
        fams.append((f't{k}', hs))
    check_hist(ctx, fams)


# =================================================================================================== C08
def mutate(rng, data, pool):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.random()
        if not d:
            break
        i = rng.randrange(len(d))
        if k < .25:
            d[i] = rng.randrange(256)
        elif k < .4:
            d[i] ^= 1 << rng.randrange(8)
        elif k < .5:
            d[i] = rng.choice([0, 255, 1, 127, 128, 216, 217, 218, 196, 208])
        elif k < .6:
            del d[i:i + rng.choice([1, 2, 5, 40])]
        elif k < .7:
            d[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 30])))
        elif k < .78:
            j = rng.randrange(len(d))
            d[i:i] = d[j:j + rng.choice([2, 10, 60])]
        elif k < .86:
            d = d[:i]
        elif k < .93:
            d[i:i + 2] = bytes([255, rng.choice([0xC0, 0xC2, 0xC4, 0xD0, 0xD8, 0xD9, 0xDA, 0xDB, 0xDD, 0xE0, 0xFE, 0x01, 0xDC, 0xCC])])
        else:
            o = rng.choice(pool)
            d = d[:i] + bytearray(o[rng.randrange(len(o)):])
    return bytes(d)


def mutate_header(rng, st):
    """a change to one header segment"""
    parts = [bytearray(p.data) for p in st.parts]
    hd = [i for i, p in enumerate(st.parts) if p.kind in ('dqt', 'dht', 'sof', 'sos', 'dri')]
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.choice(hd)
        b = parts[i]
        k = rng.random()
        if k < .6 and len(b) > 2:
            b[rng.randrange(2, min(len(b), 22))] = rng.choice([0, 1, 2, 3, 4, 8, 15, 16, 17, 63, 64, 127, 128, 254, 255, rng.randrange(256)])
        elif k < .7:
            j = rng.choice(hd)
            parts[i], parts[j] = parts[j], parts[i]
        elif k < .8:
            parts.insert(i, bytearray(parts[rng.choice(hd)]))
            break
        elif k < .9:
            parts[i] = bytearray()
        else:
            del b[rng.randrange(len(b) + 1):]
    return b''.join(parts)


def entropy_fuzz(rng, st):
    """legal headers, but Huffman symbols, entropy-coded data or scan parameters are arbitrary"""
    parts = [[p.kind, bytearray(p.data)] for p in st.parts]
    what = rng.choice(['sym', 'ecs', 'both', 'both', 'sos', 'all', 'ri'])
    if what in ('sym', 'both', 'all'):
        p = rng.choice([.02, .2, 1])
        for k, b in parts:
            if k != 'dht':
                continue
            i = 0
            while b[i] == 255:
                i += 1
            i += 3
            while i < len(b):
                cls, n = b[i] >> 4, sum(b[i + 1:i + 17])
                for j in range(i + 17, i + 17 + n):
                    if rng.random() < p:
                        b[j] = rng.randrange(256) if cls else rng.randrange(16)
                        if cls and rng.random() < .5:
                            b[j] = rng.choice([0xF0, 0xF0, 0xF1, 0xFA, 0xE1, 0xE0, 0xD0, 0x80, 0x00, 0x0A, 0x9A, rng.randrange(16) * 16 + 1])
                i += 17 + n
    if what in ('sos', 'all') and st.plan['mode'] == 'prog':
        for k, b in parts:
            if k == 'sos' and rng.random() < .5:
                j = rng.choice([-1, -1, -2, -3])
                b[j] = rng.choice([0, 1, 5, 6, 62, 63, 64, 16, 0x10, 0x21, 0x32, 0x0D, 0x0A, 0xDC, rng.randrange(256)])
    if what in ('ri', 'all'):
        for k, b in parts:
            if k == 'dri' and rng.random() < .6:
                b[-1] = rng.choice([0, 1, 2, 3, 7, 200, 255])
    if what in ('ecs', 'both', 'all'):
        for x in parts:
            if x[0] == 'ecs' and rng.random() < .6:
                n = rng.choice([0, 1, 2, 5, 20, 100, 400, len(x[1]), 2 * len(x[1])])
                d = rng.randbytes(n)
                k = rng.random()
                if k < .7:
                    d = d.replace(b'\xff', b'\xff\0')
                elif k < .8:
                    d = d.replace(b'\xff', b'\xff' + bytes([rng.choice([0xD0, 0xD1, 0xD7, 0, 0xFF, 0xD9, 0xC4, 0xDA, 0xC0])]))
                elif k < .9:
                    d = bytes(n)
                x[1] = d
    return b''.join(bytes(b) for _, b in parts)


VARS8 = ('x86', 'x86', 'scalar', 'debug', 'debug', 'debugscalar')


def c08(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL + GRAYS, Contents=['sparse', 'mix', 'dense'], Huffs=['opt', 'std', 'skew', 'full'], QSlots=range(4), HSlots=range(4),
              RIs=[0, 1, 3], MiscMax=2, Fills=[0, 0, 1], MaxAl=2)
    ps = ctx.plans(int(500 * s), Ws=[1, 8, 9, 17, 33, 60], Hs=[1, 8, 9, 17, 33], **sp)
    sts = streams(ctx, ps, 'a')
    pool = [st.data for _, st in sts]
    fams = []
    for k, (p, st) in enumerate(sts):
        good = meta(st, f'g{k}')
        cat = []
        for _ in range(14):
            d = mutate_header(rng, st) if rng.random() < .45 else mutate(rng, st.data, pool)
            cat.append(d)
        cat += [entropy_fuzz(rng, st) for _ in range(20)]
        if k % 10 == 0:
            cat += [b'', b'\xff', b'\xff\xd8', bytes(rng.randrange(256) for _ in range(200)), b'\xff\xd8' + bytes(rng.randrange(256) for _ in range(300)),
                    b'\xff\xd8' + b'\xff' * 50, st.data[:len(st.data) // 2], b'\xff\xd8\xff\xda', b'\xff' * 100]
        # fault list too: must not crash, whatever the verdict
        fns = rng.sample(sorted(FAULTS), 6)
        for f in fns:
            if p['fill'] == 0:
                b = FAULTS[f](st, rng)
                if b is not None:
                    cat.append(b)
        o = dict(cs=rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA', 'RGBX', 'CMYK']), un=rng.random() < .7, th=rng.choice([1, 2, 4]),
                 st=rng.random() < .2, ms=rng.choice([1, 5, 64, 64, 64]))
        h0 = Hist().new(**o).decode(good)
        h0.note = 'good stream on a fresh decoder'
        hs = [h0]
        for j in range(0, len(cat), 5):
            h = Hist(variant=rng.choice(VARS8)).new(**o)
            for d in cat[j:j + 5]:
                am = any_meta(d)
                if am[0]['stream'] == good[0]['stream']:
                    continue
                if rng.random() < .25:
                    h.headers(am)
                h.decode(am)
            h.decode(good)
            h.note = f'damaged copies of {K_brief(p)}'
            hs.append(h)
        fams.append((f'f{k}', hs))
    check_hist(ctx, fams, timeout_s=30)


# =================================================================================================== C09
def c09(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL, Contents=['sparse', 'dc'], Huffs=['opt', 'std'], RIs=[0], CutSets='CS', MaxAl=2)
    ps = ctx.plans(int(110 * s), Ws=W1, Hs=H1, Modes=['base', 'prog', 'prog'], **sp)
    fams = []
    for k, (p, st) in enumerate(streams(ctx, ps, 'a')):
        m = meta(st, f'a{k}')
        w, h, n = p['w'], p['h'], m[0]['scans']
        hs = [Hist().new().decode(m)]
        for kw in (dict(mw=w), dict(mw=w - 1), dict(mh=h), dict(mh=h - 1), dict(mw=w, mh=h), dict(mw=w - 1, mh=h), dict(mw=w, mh=h - 1),
                   dict(mw=w + 1, mh=h + 1), dict(mw=h, mh=w), dict(mw=65535, mh=65535), dict(mw=0), dict(mh=0), dict(mw=max(0, w - 8)),
                   dict(ms=n), dict(ms=max(n - 1, 1)), dict(ms=n + 1), dict(ms=1), dict(ms=1000), dict(ms=max(1, n // 2)),
                   dict(mw=w, mh=h, ms=n), dict(mw=w, ms=n - 1 if n > 1 else 1)):
            x = Hist().new(**kw).decode(m).headers(m)
            x.note = f'{kw} {K_brief(p)}'
            hs.append(x)
            if 'ms' not in kw and rng.random() < .4:
                x = Hist().new().limits(kw.get('mw', 16384), kw.get('mh', 16384)).decode(m)
                x.note = f'set_limits {kw} {K_brief(p)}'
                hs.append(x)
        fams.append((f'a{k}', hs))
    # default limits: 16384 by 16384, 64 scans
    edge = [('gray', 16384, 1), ('gray', 16385, 1), ('gray', 1, 16384), ('gray', 1, 16385), ('gray', 65535, 1), ('gray', 1, 65535), ('444', 16384, 8),
            ('420', 16385, 3), ('420', 2, 16385), ('gray', 16390, 9)]
    for k, (sa, w, h) in enumerate(edge):
        n = 1 if sa == 'gray' else 3
        plan = K.reference_plan(dict(samp=sa, mode='base', w=w, h=h, content='dc', tq=[0] * n))
        st = K.build(plan, f'edge{k}')
        m = meta(st, f'e{k}')
        hs = []
        for kw in ({}, dict(mw=65535, mh=65535), dict(mw=w), dict(mh=h), dict(mw=w, mh=h), dict(mw=w - 1, mh=65535), dict(mw=65535, mh=h - 1)):
            x = Hist().new(**kw).decode(m).headers(m)
            x.note = f'{kw} {sa} {w}x{h}'
            hs.append(x)
        fams.append((f'e{k}', hs))
    # 63, 64, 65 and more scans, default limit
    for k, n in enumerate([63, 64, 65, 66, 100, 190, 255, 256, 257, 258, 300, 320, 512, 513, 700]):
        bands = list(range(1, 64))
        items = [{'t': 'dqt', 'slots': [0], 'decoy': False}, {'t': 'sof'}, {'t': 'dri', 'ri': 0}, {'t': 'dht', 'tabs': [[0, 0], [1, 0]], 'decoy': False}]
        items.append(dict(t='scan', cs=[1, 2, 3], ss=0, se=0, ah=0, al=0))
        # the bands of one bit after the other: up to 4 * 189 + 1 scans
        top = 3 if n > 190 else 0
        sc = [dict(t='scan', cs=[c], ss=b, se=b, ah=0 if a == top else a + 1, al=a) for a in range(top, -1, -1) for c in (1, 2, 3) for b in bands][:n - 1]
        items += sc
        plan = dict(samp='444', mode='prog', w=9, h=9, content='sparse', huff='opt', tq=[0] * 3, td=[0] * 3, ta=[0] * 3, fill=0, pad=1, trail=0,
                    maxrun=32767, items=items)
        st = K.build(plan, f'sc{k}')
        m = meta(st, f'sc{k}')
        hs = []
        for kw in (dict(ms=1000), {}, dict(ms=n), dict(ms=n - 1), dict(ms=n + 1), dict(ms=64), dict(ms=255), dict(ms=256), dict(ms=n - 256 if n > 256 else 2), dict(ms=0), dict(ms=100000)):
            x = Hist().new(**kw).decode(m)
            x.note = f'{kw} {n} scans'
            hs.append(x)
        fams.append((f'sc{k}', hs))
    check_hist(ctx, fams)
    # the same limits judged by Decoder.tla, from the bytes alone
    cs = []
    for p, st in streams(ctx, ps[:int(60 * s)], 'a'):
        n = sum(1 for x in p['items'] if x['t'] == 'scan')
        kw = rng.choice([dict(mw=p['w'] - 1), dict(mh=p['h'] - 1), dict(ms=max(1, n - 1)), dict(ms=n), dict(mw=p['w'], mh=p['h']), {}])
        cs.append(abs_case(st.data, p, gray=is_gray(p), hdr=rng.random() < .3, note=str(kw), **kw))
    for _ in range(20):
        p, st = rng.choice(streams(ctx, ps[:1], 'z'))
        cs.append(abs_case(FAULTS['zero_dim'](st, rng), p, hdr=rng.random() < .5, note='zero size'))
    ctx.log(check_abs(ctx, cs))


# =================================================================================================== C10
def c10(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL + GRAYS, Contents=['sparse', 'dc'], Huffs=['opt', 'std'], QSlots=range(4), HSlots=range(4), RIs=[0, 0, 2], MiscMax=5,
              Decoys=[True], Fills=[0, 1, 7])
    ps = ctx.plans(int(330 * s), Ws=W1 + [255, 256, 300], Hs=[1, 8, 9, 17, 33], **sp)
    cs, fams = [], []
    for k, (p, st) in enumerate(streams(ctx, ps, 'a')):
        pre = b''
        for x in st.parts:
            pre += x.data
            if x.kind == 'sos':
                break
        tail = rng.choice([b'', bytes(rng.randrange(256) for _ in range(rng.randint(1, 60))), b'\xff\xd9', st.data[len(pre):]])
        cs.append(abs_case(pre + tail, p, cs=rng.choice(['RGB', 'GRAY', 'RGBA', 'CMYK']), hdr=True, note='headers only'))
        m = meta(st, f'a{k}')
        c = rng.choice(['RGB', 'YCC', 'GRAY'])
        h = Hist().new(cs=c).headers(m).decode(m).headers(m)
        h.note = K_brief(p)
        r = Hist().new(cs=c).decode(meta(reference(ctx, st), f'a{k}'))
        r.note = 'reference'
        fams.append((f'a{k}', [r, h]))
    # header reads of sizes that would be too much to decode
    for k in range(int(60 * s)):
        n = rng.choice([1, 3])
        w, h = rng.choice([1, 255, 256, 257, 5000, 16384, 40000, 65535]), rng.choice([1, 255, 256, 4096, 16384, 50000, 65535])
        plan = K.reference_plan(dict(samp='gray' if n == 1 else rng.choice(COLOR), mode='base', w=8, h=8, content='dc', tq=[0] * n))
        st = K.build(plan, f'dim{k}')
        d = b''
        for x in st.parts:
            b = x.data
            if x.kind == 'sof':
                b = bytearray(b)
                b[5:9] = bytes([h >> 8, h & 255, w >> 8, w & 255])
                if rng.random() < .4:
                    b[1] = 0xC2
            d += bytes(b)
            if x.kind == 'sos':
                break
        cs.append(abs_case(d, None, hdr=True, mw=65535, mh=65535, note=f'{w}x{h}'))
    ctx.log(check_abs(ctx, cs))
    check_hist(ctx, fams)
    # every order of header segments
    segment_orders(ctx, [(['q1', 'd1', 'a1', 'base', 'prog', 'scan', 'dc', 'eoi', 'com'], ['nothing'], 4), (SEGS, ['header'], 3)], hdr=True)
    header_cases(ctx, int(1500 * s), hdr=1.0)


# =================================================================================================== C11
def fault_cases(ctx, n, faults=None):
    rng = ctx.rng
    sp = dict(Samps=ALL + ['gray22'], Contents=['sparse', 'dc'], Huffs=['opt', 'std'], QSlots=range(3), HSlots=range(3), RIs=[0, 0, 2], MiscMax=1,
              CutSets='CSmall', MaxAl=1, Faults=sorted(faults or FAULTS))
    cs = []
    for k, p in enumerate(ctx.plans(n, Ws=[1, 8, 9, 16, 17, 24], Hs=[1, 8, 9, 16, 17], **sp)):
        st = K.build(p, f'{ctx.seed}/{ctx.round}/f/{k}')
        d = FAULTS[p['fault']](st, rng)
        if d is None:
            continue
        ctx.count('fault_' + p['fault'])
        # output is not compared here: only acceptance counts
        gray = is_gray(p) or rng.random() < .67
        cs.append(abs_case(d, p, cs='GRAY' if gray else 'YCC', gray=gray, note='fault ' + p['fault'], hdr=False))
    return cs


def c11(ctx, s):
    rng = ctx.rng
    cs = fault_cases(ctx, int(1500 * s))
    ctx.log(check_abs(ctx, cs))
    # for each fault: how often it had to be refused
    for c, v in zip(cs, ctx.last_verdicts):
        ctx.count(f"refused_{c['plan']['fault']}", 1 if v[0] == 'err' else 0)
    low = [f for f in FAULTS if ctx.notes.get('fault_' + f, 0) and not ctx.notes.get('refused_' + f, 0)]
    ctx.notes['faults_never_refused'] = len(low)
    if low:
        ctx.log('never refused:', low)
    header_sweep(ctx, int(6000 * s))
    header_cases(ctx, int(6000 * s), strict=.05)
    ctx.log(check_abs(ctx, shape_cases(ctx, [x for x in ctx.shapes() if not x['legal']])))
    segment_orders(ctx, SEGRUNS)
    # header reads refuse the faults of the headers too
    hs = [abs_case(c['data'], c['plan'], hdr=True, note=c['note'] + ' (read_headers)') for c in rng.sample(cs, min(len(cs), int(250 * s)))]
    ctx.log(check_abs(ctx, hs))


SEGS = ['q1', 'q2', 'd1', 'd2', 'a1', 'a2', 'base', 'prog', 'r0', 'r1', 'com', 'scan', 'dc', 'dc2', 'ac', 'ac2', 'eoi', 'soi', 'rst', 'dnl', 'dac', 'sof1']
SEGRUNS = [(['q1', 'd1', 'a1', 'base', 'prog', 'scan', 'dc', 'eoi'], ['nothing'], 5), (SEGS, ['header'], 3), (SEGS, ['first'], 3), (SEGS, ['base'], 2),
           (['q2', 'd2', 'a2', 'r1', 'dc2', 'ac2', 'eoi'], ['both'], 4), (['q2', 'd2', 'a2', 'r1', 'dc', 'dc2', 'ac', 'ac2', 'eoi'], ['prog'], 4)]


def segment_orders(ctx, runs, keep=lambda end: True, hdr=False):
    """every sequence of segments up to a length; open ones are closed with EOI; the two specifications must agree"""
    cs, want = [], []
    for items, starts, n in runs:
        for x in ctx.segments(items, starts, n):
            seq, end = x['seq'], x['end']
            if end in ('open', 'scanned'):
                end = 'ok' if end == 'scanned' or 'dc' in seq else 'err'
                seq = seq + ['eoi']
            if not keep(end):
                continue
            if len(cs) % 50 == 0:
                kit = K.Kit(ctx.rng)
            cs.append(abs_case(kit.build(seq), cs='GRAY', gray=True, hdr=hdr, note='segments ' + ' '.join(seq)))
            want.append(end)
    ctx.log(check_abs(ctx, cs))
    for c, w, v in zip(cs, want, ctx.last_verdicts):
        if v[0] != 'skipped' and v[0] != w and not hdr:
            raise T.TlcError(f"Segments.tla says {w}, Decoder.tla {v}: {c['note']} {c['data'].hex()}")


def header_cases(ctx, n, hdr=0.0, strict=0.0):
    """the headers of Headers.tla (all, or n of them), in streams whose entropy-coded data is zero bits"""
    rng = ctx.rng
    cases = ctx.cases('Headers', 'Headers.cfg')
    if n < len(cases):
        cases = rng.sample(cases, n)
    ctx.count('headers_tried', len(cases))
    one = bytes([1] + [0] * 15 + [0])
    dht = seg(0xC4, b'\x00' + one + b'\x10' + one + b'\x01' + one + b'\x11' + one)
    dqt = seg(0xDB, b'\x00' + bytes(rng.randint(1, 255) for _ in range(64)) + b'\x02' + bytes(rng.randint(1, 255) for _ in range(64)))
    cs = []
    for c in cases:
        w, h = rng.choice([1, 8, 9, 17]), rng.choice([1, 8, 9, 17])
        k = len(c['ids'])
        sof = seg(0xC2 if c['prog'] else 0xC0, bytes([8]) + h.to_bytes(2, 'big') + w.to_bytes(2, 'big') + bytes([k]) +
                  b''.join(bytes([i, a * 16 + b, q]) for i, (a, b), q in zip(c['ids'], c['samp'], c['tq'])))
        sos = lambda ids, td, ta, ss, se, a: seg(0xDA, bytes([len(ids)]) + b''.join(bytes([i, t * 16 + u]) for i, t, u in zip(ids, td, ta)) + bytes([ss, se, a[0] * 16 + a[1]]))
        whole = sos(c['ids'], [0] * k, [0] * k, 0, 0 if c['prog'] else 63, (0, 0))
        zeros = bytes(60)
        sc = c['scan']
        body = whole + zeros
        if sc:
            body = sos(sc['cs'], sc['td'], sc['ta'], sc['ss'], sc['se'], sc['a']) + zeros
            if c['prog'] and rng.random() < .6:
                body = sos(c['ids'], [0] * k, [0] * k, 0, 0, (0, sc['a'][0] if sc['ss'] == 0 and rng.random() < .8 else 0)) + zeros + body
            elif c['prog'] and k == 3 and set(sc['cs']) < {1, 2, 3} and rng.random() < .8:
                rest = [i for i in (1, 2, 3) if i not in sc['cs']]
                body += sos(rest, [0] * 3, [0] * 3, 0, 0, (0, 0)) + zeros
        tabs = rng.choice([dqt + dht, dht + dqt])
        d = SOI + (tabs + sof if rng.random() < .5 else sof + tabs) + body + EOI
        gray = k == 1 or rng.random() < .6
        cs.append(abs_case(d, None, cs='GRAY' if gray else 'YCC', gray=gray, hdr=rng.random() < hdr, strict=rng.random() < strict, note=f'header {c}'))
    ctx.log(check_abs(ctx, cs))


def header_sweep(ctx, n):
    """one byte of a header segment replaced, in small streams; limits keep what is decoded small"""
    rng = ctx.rng
    plans = ctx.plans(24, 'sweep', Samps=ALL + ['gray22'], Ws=[1, 8, 9], Hs=[1, 8, 9], Contents=['sparse'], Huffs=['opt'], QSlots=[0, 1], HSlots=[0, 1], RIs=[0, 1],
                      MaxAl=1, CutSets='CSmall')
    spots = []
    for k, (p, st) in enumerate(streams(ctx, plans, 'sw')):
        at = 0
        for x in st.parts:
            if x.kind in ('soi', 'sof', 'dht', 'dqt', 'dri', 'sos', 'eoi'):
                # table entries of DQT are all legal but for zero
                top = min(len(x.data), 6) if x.kind == 'dqt' else len(x.data)
                spots += [(k, p, st, x.kind, at, i) for i in range(top) for _ in range(6 if i < 4 and x.kind in ('sof', 'sos', 'dri') else 1)]
            at += len(x.data)
    cs = []
    near = lambda v: {v ^ 1 << b for b in range(8)} | {(v + d) % 256 for d in (1, 2, 3, 4, 5, 16, 255, 254, 253, 240)} | {0, 1, 2, 3, 4, 63, 64, 255}
    for k, p, st, kind, at, i in (rng.choice(spots) for _ in range(n)):
        v = st.data[at + i]
        new = rng.choice(sorted(near(v) - {v})) if rng.random() < .8 else rng.randrange(256)
        d = bytearray(st.data)
        d[at + i] = new
        ctx.count('sweep_' + kind)
        c = abs_case(bytes(d), p, cs='GRAY', gray=True, mw=64, mh=64, hdr=rng.random() < .1, note=f'byte {i} of {kind}: {v} replaced by {new}')
        cs.append(c)
    ctx.log(check_abs(ctx, cs))


# =================================================================================================== C12
def c12(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL + GRAYS, Contents=['sparse', 'mix'], Huffs=['opt', 'std'], QSlots=range(3), HSlots=range(3), RIs=[0, 0, 3], MiscMax=3,
              Decoys=[True, False], Pads=[0, 1], Trails=[0, 4])
    ps = ctx.plans(int(300 * s), Ws=W1, Hs=H1, Fills=[0], **sp)
    fams, cs = [], []
    for k, (p, st) in enumerate(streams(ctx, ps, 'a')):
        m = meta(st, f'a{k}')
        c = rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA'])
        hs = [Hist().new(cs=c).decode(m), Hist().new(cs=c, st=True).decode(m).headers(m), Hist().new(('st', True), ('cs', c), ('st', False)).decode(m)]
        # stray bytes between header segments
        for n in [1, 2, 3, 4, 5, 9, 40][k % 7:k % 7 + 3]:
            lim = next(i for i, x in enumerate(st.parts) if x.kind == 'sos')
            at = rng.randint(1, lim)
            junk = bytes(rng.choice([0, 1, 0x41, 0x7F, 0xC4, 0xD8, 0xFE]) for _ in range(n))
            d = b''.join(x.data for x in st.parts[:at]) + junk + b''.join(x.data for x in st.parts[at:])
            mm = (dict(m[0], stream=f'{m[0]["stream"]}-{n}-{at}', stray=n), d)
            hs.append(Hist().new(cs=c).decode(mm))
            hs.append(Hist().new(cs=c, st=True).decode(mm).headers(mm))
            cs.append(abs_case(d, p, strict=rng.random() < .7, gray=is_gray(p), note=f'{n} stray bytes'))
        for h in hs:
            h.note = f'{h.ev[0]["sets"]} {K_brief(p)}'
        fams.append((f'a{k}', hs))
    # fill bytes count as stray bytes; damaged streams: refusal or the same result
    for k, (p, st) in enumerate(streams(ctx, ctx.plans(int(60 * s), 'fill', Ws=W1, Hs=H1, Fills=[1, 3, 9], **sp), 'f')):
        m = meta(st, f'f{k}')
        hs = [Hist().new().decode(m), Hist().new(st=True).decode(m)]
        fams.append((f'f{k}', hs))
        d = mutate(rng, st.data, [st.data])
        mm = any_meta(d)
        fams.append((f'm{k}', [Hist().new().decode(mm), Hist().new(st=True).decode(mm)]))
        for h in hs + fams[-1][1]:
            h.note = f'{h.ev[0]["sets"]} {K_brief(p)}'
    check_hist(ctx, fams)
    for p, st in streams(ctx, ps[:int(80 * s)], 'a'):
        cs.append(abs_case(st.data, p, strict=True, gray=is_gray(p), note='strict'))
    ctx.log(check_abs(ctx, cs[:int(330 * s)] if len(cs) > 330 * s else cs))


# =================================================================================================== C13
def c13(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL, Contents=['sparse', 'dense', 'bigac', 'zrl', 'edge', 'mix', 'extreme'], Huffs=HUFFS, QSlots=[0, 1], HSlots=range(4), RIs=[0, 0, 3],
              MiscMax=2, Decoys=[True, False])
    ps = ctx.plans(int(260 * s), Ws=W1[:14], Hs=H1[:11], Modes=['base', 'base', 'prog'], **sp)
    fams = []
    for k, p in enumerate(ps):
        s0 = K.build(p, f'{ctx.seed}/{ctx.round}/h/{k}')
        pairs = [(p, s0)]
        for j, hf in enumerate(rng.sample(HUFFS, 5)):
            q = dict(p, huff=hf, td=[rng.randrange(4) for _ in p['td']] if 0 else p['td'])
            pairs.append((q, K.build(q, f'{k}/{j}', img=s0.img, qts=s0.qts)))
        fams.append(fam(ctx, f'h{k}', pairs, rng, spaces=('RGB', 'YCC', 'GRAY')))
    check_hist(ctx, fams)
    ctx.log(check_abs(ctx, acases(ctx, streams(ctx, ctx.plans(int(170 * s), 'abs', Ws=W1[:12], Hs=H1[:9], Modes=['base', 'prog'], **sp), 'a'))))
    ctx.log(check_abs(ctx, shape_cases(ctx, [x for x in ctx.shapes() if x['legal']])))


def shape_cases(ctx, shapes):
    """a stream for every vector of counts, as DC and as AC table"""
    cs = []
    for x in shapes:
        n = sum(x['bits'])
        for cls in (0, 1):
            # what is a code needs as many different symbols
            if n == 0 or n > 256 or (cls == 0 and x['legal'] and n > 16):
                continue
            prog = ctx.rng.random() < .4
            cs.append(abs_case(K.shaped(x['bits'], cls, ctx.rng, prog), cs='GRAY', gray=True, note=f"{'AC' if cls else 'DC'} table with counts {x['bits']} prog={prog}"))
    return cs


# =================================================================================================== C14
def requant(st, rng):
    """the same image, but components whose first scans differ share destinations, which are redefined between these scans"""
    n, tq = len(st.img.comps), st.plan['tq']
    first = {}
    for i, x in enumerate(st.parts):
        if x.kind == 'sos':
            for c in x.info['cs']:
                first.setdefault(c - 1, i)
    dest, cur, out = {}, {}, []
    for i in sorted(set(first.values())):
        g, used = [c for c in range(n) if first[c] == i], {}
        for c in g:
            t = tq[c]
            free = [d for d in range(4) if used.get(d, t) == t]
            dest[c] = rng.choice(free[:2])
            used[dest[c]] = t
    junk = lambda: [rng.randint(1, 255) for _ in range(64)]
    for i, x in enumerate(st.parts):
        if x.kind == 'dqt':
            continue
        if x.kind == 'sof':
            b = bytearray(x.data)
            for c in range(n):
                b[len(b) - 3 * n + 3 * c + 2] = dest[c]
            out.append(bytes(b))
            continue
        if x.kind == 'sos':
            for c in range(n):
                if first[c] == i and cur.get(dest[c]) != tq[c]:
                    cur[dest[c]] = tq[c]
                    out.append(seg(0xDB, dqt_payload(dest[c], st.qts[tq[c]])))
        out.append(x.data)
        if x.kind in ('ecs', 'soi') and rng.random() < .3:
            d = rng.randrange(4)
            cur[d] = None
            out.append(seg(0xDB, dqt_payload(d, junk())))
    return b''.join(out)


def c14(ctx, s):
    sp = dict(Samps=ALL, Contents=['sparse', 'dense', 'hf', 'bigac', 'dc', 'mix'], Huffs=['opt', 'std'], QSlots=range(4), HSlots=[0, 1], RIs=[0], MiscMax=5,
              Decoys=[True], MaxAl=1, CutSets='CSmall')
    ps = ctx.plans(int(330 * s), Ws=[1, 8, 16, 17, 33], Hs=[1, 8, 9, 16, 17], Modes=['base', 'prog'], **sp)
    pairs = streams(ctx, ps, 'a')
    # one coefficient at a time, every table value
    rng = ctx.rng
    for k in range(int(64 * s)):
        tq = [rng.randrange(4) for _ in range(3)]
        plan = K.reference_plan(dict(samp=rng.choice(ALL), mode='base', w=40, h=16, content='one', tq=tq))
        n = len(K.SAMP[plan['samp']])
        plan.update(tq=tq[:n], td=[0] * n, ta=[0] * n)
        plan = K.reference_plan(plan)
        qts = [[rng.randint(1, 255) for _ in range(64)] for _ in range(4)]
        img = K.make_image(dict(plan, content='dc'), rng, qts)
        z = k % 64
        for c in img.comps:
            for row in c['blocks']:
                for b in row:
                    b[K.ZZ[z]] = rng.choice([-1, 1]) * rng.randint(1, max(1, min(1000, 1800 // qts[c['tq']][K.ZZ[z]])))
        pairs.append((plan, K.build(plan, f'one{k}', img=img, qts=qts)))
    ctx.log(check_abs(ctx, acases(ctx, pairs)))
    relate(ctx, ctx.plans(int(300 * s), 'rel', Ws=W1, Hs=H1, Modes=['base', 'prog'], **sp), 'r')
    # the same products of table entry and coefficient, split in different ways
    fams = []
    for k, p in enumerate(ctx.plans(int(130 * s), 'split', Ws=[8, 16, 17], Hs=[8, 9, 16], Modes=['base', 'prog'], **dict(sp, MiscMax=1))):
        r = random.Random(f'{ctx.seed}/{ctx.round}/split/{k}')
        qts = [[r.choice([255, 255, 254, 252, 240, 210, 128, 192, 180, 231, 245, 250, 127, 251, 64, 36, 2, 1]) for _ in range(64)] for _ in range(4)]
        img = K.make_image(dict(p, content=r.choice(['sparse', 'dense', 'hf', 'one'])), r, qts)
        for c in img.comps:
            q = qts[c['tq']]
            for row in c['blocks']:
                for b in row:
                    b[0] = r.randint(-1000 // q[0], 1000 // q[0])
                    for _ in range(3):
                        i = r.choice([63, r.randrange(1, 64)])
                        b[i] = r.choice([-1, 1]) * r.randint(1, max(1, 600 // q[i]))
                    while sum(abs(b[i]) * q[i] for i in range(64)) > 9000:
                        b[r.randrange(1, 64)] = 0
        pairs = [(p, K.build(p, f'split{k}', img=img, qts=qts))]
        for j in range(3):
            # divide the entry, multiply the coefficient
            div = [[r.choice([d for d in range(1, 256) if q % d == 0 and q // d * 0 + d <= 60 and (i or d <= 40)]) for i, q in enumerate(t)] for t in qts]
            qs = [[q // d for q, d in zip(t, dt)] for t, dt in zip(qts, div)]
            im = copy.deepcopy(img)
            for c in im.comps:
                dt = div[c['tq']]
                for row in c['blocks']:
                    for b in row:
                        for i in range(64):
                            b[i] *= dt[i]
            if any(abs(b[i]) > 1023 for c in im.comps for row in c['blocks'] for b in row for i in range(64)):
                continue
            pairs.append((p, K.build(p, f'split{k}/{j}', img=im, qts=qs)))
        fams.append(fam(ctx, f'sp{k}', pairs, r, ref=False))
    check_hist(ctx, fams)
    # one destination for components that start in different scans
    r, fams, cs = rng, [], []
    for k, (p, st) in enumerate(streams(ctx, ctx.plans(int(330 * s), 'share', Ws=[1, 8, 16, 17], Hs=[1, 8, 9, 16], Modes=['prog'], **dict(sp, MiscMax=2)), 'q')):
        if st.plan['fill'] or len({tuple(x.info['cs']) for x in st.parts if x.kind == 'sos'}) < 2:
            continue
        d = requant(st, r)
        m0 = meta(st, f'q{k}')[0]
        o = dict(cs=r.choice(['RGB', 'YCC', 'GRAY']), un=r.random() < .7, **(dict(ms=1000) if m0['scans'] > 60 else {}))
        h0 = Hist().new(**o).decode((m0, st.data))
        h1 = Hist().new(**o).decode((dict(m0, stream=m0['stream'] + '/shared'), d))
        h0.note = h1.note = f'destinations redefined between scans {K_brief(p)}'
        fams.append((f'q{k}', [h0, h1]))
        if k < 60 * s:
            cs.append(abs_case(d, p, cs='YCC', gray=is_gray(p), note='destinations redefined between scans'))
    ctx.count('shared_destinations', len(fams))
    check_hist(ctx, fams)
    ctx.log(check_abs(ctx, cs))
    # every order of definitions and redefinitions around the scans of a progressive image, and before a baseline scan
    segment_orders(ctx, [(['q1', 'q2', 'd2', 'a2', 'com', 'dc2', 'ac2', 'eoi'], ['both'], 4), (['q1', 'q2', 'd2', 'a2', 'dc', 'dc2', 'ac', 'eoi'], ['prog'], 4),
                         (['q1', 'q2', 'd1', 'd2', 'a1', 'a2', 'base', 'scan'], ['header'], 4)], keep=lambda e: e == 'ok')


# =================================================================================================== C15
def track(o, c):
    """options of the decoder after a call (only to set up the fresh decoder of the same call)"""
    if c['op'] == 'new':
        o.clear()
        for x in c['sets']:
            o[x['k']] = x['v']
    elif c['op'] == 'space':
        o['cs'] = c['cs']
    elif c['op'] == 'rgba':
        o['cs'] = 'RGBA'
    elif c['op'] == 'limits':
        o['mw'], o['mh'] = c['mw'], c['mh']
    elif c['op'] == 'threads' and c['th']:
        o['th'] = c['th']


def api_cfg(d, **kw):
    c = dict(Streams=range(10), Length=9, Spaces=['RGB', 'GRAY', 'YCC', 'RGBA'], Limits=[16384], ThreadCounts=[1, 2, 4], Scans=[64],
             Calls=['new', 'decode', 'headers'], StartLive=False, Decodes=3, Slots=[])
    c.update(kw)
    f = os.path.join(d, 'api.cfg')
    with open(f, 'w') as w:
        w.write('SPECIFICATION Spec\nCONSTANTS\n' + ''.join(f'  {k} = {T.tla(v)}\n' for k, v in c.items()) + 'INVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    return f


NAMES = ['{}.jpg', '{}', 'with space {}.JPG', 'd\u00e9j\u00e0 vu \u56fe {}.jpeg', '.hidden{}', 'sub/dir/{}.png', 'x' * 200 + '{}.jpg', "a'b\"c#{}%20.jpg"]


def slot(d, i):
    """path of a file: absolute, relative, through a link or with superfluous parts"""
    f = os.path.join(d, NAMES[i % len(NAMES)].format(i))
    return (f, os.path.relpath(f), f + '.link', d + '//./' + os.path.relpath(f, d))[i // 2 % 4]


def make_slots(d, cat):
    for i, (m, data) in enumerate(cat):
        f = os.path.join(d, NAMES[i % len(NAMES)].format(i))
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as w:
            w.write(data)
        os.symlink(f, f + '.link')


def play(h, c, cat, d):
    op = c['op']
    if op == 'new':
        h.new(*[(x['k'], x['v']) for x in c['sets']])
    elif op == 'options':
        h.getters(*[(x['k'], x['v']) for x in c['sets']])
    elif op == 'decode':
        h.decode(cat[c['s']])
    elif op == 'headers':
        h.headers(cat[c['s']])
    elif op == 'file':
        h.file(cat[c['s']], slot(d, c['f']))
    elif op == 'rewrite':
        h.write(slot(d, c['f']), cat[c['s']][1])
    elif op == 'nofile':
        h.nofile([os.path.join(d, 'missing.jpg'), d, os.path.join(d, 'no', 'such', 'dir.jpg')][c['n']])
    elif op == 'space':
        h.space(c['cs'])
    elif op == 'rgba':
        h.rgba()
    elif op == 'limits':
        h.limits(c['mw'], c['mh'])
    elif op == 'threads':
        h.threads(c['th'])
    elif op == 'query':
        h.query()


def api_round(ctx, tag, nfam, nhist, cfg, cat_of, files=False, fresh=True, first=False):
    d = T.tmp('api-')
    try:
        f = api_cfg(d, **dict(cfg, StartLive=first))
        hists = T.histories('ApiGen.tla', f, nfam * nhist, ctx.subseed(tag), depth=2 * cfg['Length'] + 4)
        ctx.count('histories', len(hists))
        fams = []
        for k in range(nfam):
            cat = cat_of(k)
            sub = os.path.join(d, str(k))
            os.makedirs(sub)
            if files:
                make_slots(sub, cat)
            hs, need = [], {}
            for hi, hist in enumerate(hists[k * nhist:(k + 1) * nhist]):
                h, o = Hist(), {}
                if files and hi:
                    # histories run side by side: each has files of its own
                    sub = os.path.join(d, f'{k}-{hi}')
                    os.makedirs(sub)
                    make_slots(sub, cat)
                if first:
                    h.new()
                for c in hist:
                    play(h, c, cat, sub)
                    track(o, c)
                    if fresh and c['op'] in ('decode', 'headers', 'file'):
                        need[(('headers' if c['op'] == 'headers' else 'decode'), c['s'], tuple(sorted(o.items())))] = 1
                h.note = str([(c['op'], c.get('s', c.get('cs', ''))) for c in hist])
                hs.append(h)
            fr = []
            for (op, si, o) in need:
                x = Hist().new(*o)
                (x.headers if op == 'headers' else x.decode)(cat[si])
                x.note = 'the same call on a new decoder'
                fr.append(x)
            fams.append((f'{tag}{k}', fr + hs))
        check_hist(ctx, fams)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catalogue(ctx, tag, ngood, nbad, plans):
    """streams of every kind; the last nbad are damaged or refused"""
    rng = ctx.rng

    def of(k):
        cat = []
        sub = [plans[(k * 7 + i * 13) % len(plans)] for i in range(ngood)]
        sts = [K.build(p, f'{ctx.seed}/{ctx.round}/{tag}/{k}/{i}') for i, p in enumerate(sub)]
        for i, st in enumerate(sts):
            cat.append(meta(st, f'{tag}{k}-{i}'))
        for i in range(nbad):
            st = rng.choice(sts)
            r = rng.random()
            if r < .4 and st.plan['fill'] == 0:
                d = FAULTS[rng.choice(sorted(FAULTS))](st, rng)
                d = d if d is not None else b'\xff\xd8\xff'
            elif r < .6:
                d = st.data[:rng.randrange(len(st.data))]
            elif r < .8:
                d = abbreviated(st, rng)
            else:
                d = mutate(rng, st.data, [x.data for x in sts])
            cat.append(any_meta(d))
        return cat
    return of


def abbreviated(st, rng):
    """the stream without some of its header segments"""
    k = rng.choice(['dqt', 'dqt', 'dht', 'dht', 'dri', 'sof', 'sos'])
    at = [i for i, x in enumerate(st.parts) if x.kind == k]
    if not at:
        return st.data
    drop = set(at if rng.random() < .6 else [rng.choice(at)])
    if k in ('dht', 'dqt') and rng.random() < .3:
        drop |= {i for i, x in enumerate(st.parts) if x.kind in ('dht', 'dqt')}
    return b''.join(x.data for i, x in enumerate(st.parts) if i not in drop)


def hurt(st, rng):
    """damage that the decoder notices in the middle of a scan (or not)"""
    ecs = [i for i, x in enumerate(st.parts) if x.kind == 'ecs']
    i = ecs[0] if rng.random() < .5 else rng.choice(ecs)
    b = st.parts[i].data
    at = rng.randint(0, len(b))
    if at and b[at - 1] == 255:
        at -= 1
    pre, post = b''.join(x.data for x in st.parts[:i]), b''.join(x.data for x in st.parts[i + 1:])
    k = rng.random()
    if k < .45:
        # the code of ones only is never used
        return pre + b[:at] + b'\xff\0' * 4 + b[at:] + post
    if k < .6:
        return pre + b[:at]
    if k < .7:
        return pre + b[:at] + b'\xff\xd9'
    if k < .8:
        return pre + b[:at] + b'\xff' + bytes([rng.choice([0xC4, 0xDA, 0xDB, 0xC0, 0x01, 0xE0, 0xD3])]) + b[at:] + post
    if k < .9:
        return pre + b + b'\xff\xc4\0\3\0' + post
    return pre + b[:at] + bytes(rng.randrange(255) for _ in range(20)) + b[at:] + post


def twins(ctx, tag, plans):
    """streams of the same size and sampling: several contents, codings of both kinds, and damaged ones"""
    rng = ctx.rng

    def of(k):
        p = plans[k % len(plans)]
        # with the same tables, so that what is left of one image fits the next
        sts = [K.build(p, f'{ctx.seed}/{ctx.round}/{tag}/{k}/{i}') for i in range(4)]
        sts += [reference(ctx, sts[1]), reference(ctx, K.build(p, f'{ctx.seed}/{tag}/{k}/x'))]
        sts.append(K.build(dict(p, content='flat', huff='opt'), f'{ctx.seed}/{tag}/{k}/y'))
        cat = [meta(st, f'{tag}{k}-{i if i != 4 else 1}') for i, st in enumerate(sts)]
        return cat + [any_meta(hurt(rng.choice(sts[:5]), rng)) for _ in range(6)] + [any_meta(abbreviated(rng.choice(sts[:6]), rng)) for _ in range(4)]
    return of


def c15(ctx, s):
    sp = dict(Samps=ALL + ['gray22'], Modes=['base', 'prog'], Ws=[8, 9, 17, 33, 60], Hs=[8, 9, 17, 30], Contents=['sparse', 'mix'],
              Huffs=HUFFS, QSlots=range(4), HSlots=range(4), RIs=[0, 0, 1, 3], Partial=[False], MaxAl=2, Trails=[0, 3])
    ps = ctx.plans(160, 'cat', **sp)
    cat = catalogue(ctx, 'c', 8, 5, ps)
    api_round(ctx, 'h', int(70 * s), 6, dict(Streams=range(13), Length=9, Calls=['new', 'strict', 'decode', 'headers', 'space', 'rgba']), cat)
    api_round(ctx, 'l', int(10 * s), 3, dict(Streams=range(13), Length=30, Calls=['new', 'decode', 'headers']), cat)
    tw = twins(ctx, 't', [p for p in ps if p['mode'] == 'prog'][:50] + [p for p in ps if p['mode'] == 'base'][:20])
    api_round(ctx, 't', int(110 * s), 5, dict(Streams=range(17), Length=14, Calls=['new', 'strict', 'decode', 'headers', 'space']), tw)
    # very long histories on one decoder
    api_round(ctx, 'x', int(3 * s), 2, dict(Streams=range(13), Length=700, Calls=['decode', 'headers']), cat, first=True)


# =================================================================================================== C16
def c16(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL, Contents=['sparse', 'dense', 'mix', 'dc', 'bigac'], Huffs=['opt', 'std', 'any'], QSlots=[0, 1], HSlots=[0, 1], Pads=[0, 1])
    ps = ctx.plans(int(260 * s), Ws=W1[3:], Hs=H1[2:], Modes=['base'], RIs=[0, 0, 0, 2, 5], **sp)
    cs = []
    for k, (p, st) in enumerate(streams(ctx, ps, 'a')):
        e = next(i for i, x in enumerate(st.parts) if x.kind == 'ecs')
        a = len(b''.join(x.data for x in st.parts[:e]))
        n = len(st.parts[e].data)
        for c in {rng.randint(0, n), n - min(n, rng.randint(0, 3)), rng.randint(0, min(n, 12))}:
            d = st.data[:a + c]
            # not between FF and what follows it
            if d[-1] == 255:
                d = d[:-1]
            if rng.random() < .5:
                d += b'\xff\xd9'
            cs.append(abs_case(d, p, cs='YCC' if rng.random() < .85 else 'GRAY', gray=is_gray(p), unsafe=rng.random() < .7, note=f'cut after {c} of {n} bytes'))
    for c in cs:
        c['gray'] = c['gray'] or c['cs'] == 'GRAY'
    # progressive images whose last scans are missing (EOI in their place)
    ps = ctx.plans(int(160 * s), 'prog', Ws=W1, Hs=H1, Modes=['prog'], RIs=[0, 0, 3], MaxAl=2, **sp)
    for p, st in streams(ctx, ps, 'p'):
        sos = [i for i, x in enumerate(st.parts) if x.kind == 'sos']
        have = set()
        ok = []
        for q, i in enumerate(sos):
            have |= set(st.parts[i].info['cs'])
            if len(have) == len(st.img.comps):
                ok.append(i + 2)
        n = rng.choice(ok)
        d = b''.join(x.data for x in st.parts[:n]) + b'\xff\xd9'
        cs.append(abs_case(d, p, gray=is_gray(p), unsafe=rng.random() < .7, note=f'{n} of {len(st.parts)} parts'))
        # ... and whose end is missing
        e = len(b''.join(x.data for x in st.parts[:sos[0] + 1]))
        z = len(st.data) - 2 - (len(st.parts[-1].data) if st.parts[-1].kind == 'trail' else 0)
        bnd = [len(b''.join(x.data for x in st.parts[:i])) for i in range(sos[0] + 1, len(st.parts)) if st.parts[i].kind != 'trail']
        for c in {z, z + 1, rng.randint(e, z), rng.choice(bnd), max(e, rng.choice(bnd) - 1), min(z, rng.choice(bnd) + rng.randint(1, 6))}:
            cs.append(abs_case(st.data[:c], p, gray=is_gray(p), unsafe=rng.random() < .7, threads=rng.choice([1, 4]), note=f'no EOI, {c} of {z + 2} bytes'))
        # ... and of which some scans end early
        for _ in range(2):
            d = []
            short = set(rng.sample(sos, 1 if rng.random() < .7 else min(2, len(sos))))
            last = rng.choice(ok + [len(st.parts), len(st.parts)])
            for i, x in enumerate(st.parts[:last]):
                if x.kind == 'eoi':
                    break
                b = x.data
                if i - 1 in short:
                    b = b[:rng.choice([0, 1, len(b) // 2, max(0, len(b) - 1), rng.randint(0, len(b))])]
                    if b.endswith(b'\xff'):
                        b = b[:-1]
                d.append(b)
            cs.append(abs_case(b''.join(d) + b'\xff\xd9', p, gray=is_gray(p), unsafe=rng.random() < .7, threads=rng.choice([1, 4]), note='scans cut short'))
    ctx.log(check_abs(ctx, cs))


# =================================================================================================== C17
def c17(ctx, s):
    sp = dict(Samps=['422', '440', '420'], Contents=['chroma', 'extreme', 'mix', 'dc', 'hf'], Huffs=['opt', 'std'], QSlots=[0, 1])
    ps = ctx.plans(int(330 * s), Ws=W1 + [34, 47, 50, 63, 64, 65], Hs=H1 + [48, 49], Modes=['base', 'base', 'prog'], **sp)
    big = ctx.plans(int(14 * s), 'big', Ws=[100, 130, 161, 257], Hs=[50, 65, 81], Modes=['base', 'prog'], **sp)
    pairs = streams(ctx, ps + big, 'a')
    # luma must not leak into chroma: same chroma, luma at the extremes
    cs = acases(ctx, pairs, gray_out=0)
    ctx.log(check_abs(ctx, cs))
    ctx.log(check_abs(ctx, acases(ctx, pairs[:int(60 * s)], gray_out=0), variant='scalar'))
    ctx.log(check_abs(ctx, acases(ctx, pairs[int(60 * s):int(100 * s)], gray_out=0), variant='sse'))
    r = ctx.rng
    for v in ('x86', 'sse', 'scalar'):
        tiles(ctx, f't{v}', [(sa, w, h, c, dict(prog=r.random() < .2), cs, 4) for sa in ('422', '440', '420') for cs in ('YCC', 'YCC', 'RGB')
                             for w, h, c in ((r.randint(300, 4000), r.randint(33, 200), 'mix'), (r.randint(4000, 65535), r.randint(1, 33), 'chroma'),
                                             (r.choice([64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384]) + r.randint(-17, 17), 17, 'chroma'))], variant=v)
        giants(ctx, f'g{v}', [(sa, r.randint(2000, 9000), 40, {}, 'YCC', 4) for sa in ('422', '440', '420')])


# =================================================================================================== C18
def c18(ctx, s):
    sp = dict(Samps=ALL + ['gray22'], Contents=['sparse', 'dense', 'mix', 'dc', 'extreme'], Huffs=HUFFS, QSlots=range(3), HSlots=range(3), RIs=[0, 0, 1, 2, 7],
              MiscMax=6, Decoys=[True, False], Fills=[0, 1, 2, 5, 20], Pads=[0, 1], Trails=[0, 1, 2, 50])
    relate(ctx, ctx.plans(int(640 * s), Ws=W1, Hs=H1, Modes=['base', 'prog', 'prog'], **sp), 'r')
    relate(ctx, ctx.plans(int(20 * s), 'big', Ws=BIGW, Hs=BIGH, **sp), 'b')
    # streams full of FF bytes: codes of ones
    fams = []
    for k in range(int(60 * s)):
        rng = random.Random(f'{ctx.seed}/{ctx.round}/ff/{k}')
        p = dict(ctx_plan(rng), huff='uniform')
        st = K.build(p, f'{ctx.seed}/ff/{k}')
        pairs = [(p, st)]
        for j in range(3):
            q = dict(p, huff=rng.choice(['len16', 'uniform', 'skew']), pad=j & 1, fill=j)
            pairs.append((q, K.build(q, f'ff/{k}/{j}', img=st.img, qts=st.qts)))
        fams.append(fam(ctx, f'ff{k}', pairs, rng))
    check_hist(ctx, fams)
    ctx.log(check_abs(ctx, acases(ctx, streams(ctx, ctx.plans(int(110 * s), 'abs', Ws=W1[:12], Hs=H1[:10], **sp), 'a'))))


def ctx_plan(rng):
    sa = rng.choice(ALL)
    n = len(K.SAMP[sa])
    return dict(K.reference_plan(dict(samp=sa, mode='base', w=rng.choice([17, 40, 48]), h=rng.choice([9, 24]), content=rng.choice(['dense', 'mix']), tq=[0] * n)))


# =================================================================================================== C19
def c19(ctx, s):
    ps = ctx.plans(100, 'cat', Samps=ALL + ['gray22'], Ws=[1, 8, 17, 33, 120], Hs=[1, 9, 17, 60], Contents=['sparse', 'dense', 'mix'], Huffs=['opt', 'std'], RIs=[0, 2],
                   Trails=[0, 20], Fills=[0, 2])
    base = catalogue(ctx, 'c', 6, 4, ps)

    def cat(k):
        c = base(k) + [any_meta(b'', 'bad'), any_meta(b'not an image\n' * ctx.rng.randint(1, 20000), 'bad')]
        if k % 2:
            return c
        # all of one length, by bytes after EOI
        n = max(len(d) for _, d in c[:-1])
        pad = lambda m, d: (dict(m, stream=m['stream'] + '+'), d + bytes(n - len(d)))
        return [pad(*x) for x in c[:6]] + [any_meta(d + bytes(n - len(d))) for _, d in c[6:10]] + c[10:]
    api_round(ctx, 'f', int(45 * s), 6, dict(Streams=range(12), Slots=range(12), Length=10, Spaces=['RGB', 'GRAY', 'YCC', 'RGBA'],
                                          Calls=['new', 'decode', 'file', 'nofile', 'space', 'headers', 'query', 'rewrite']), cat, files=True)
    # files that change between decodes
    api_round(ctx, 'w', int(30 * s), 4, dict(Streams=range(12), Slots=range(2), Length=16, Calls=['file', 'rewrite', 'new']), cat, files=True)
    big_files(ctx, s)


def big_files(ctx, s):
    """files of up to 70 MB: many or large segments before the image, long entropy-coded data, or much after it"""
    d = T.tmp('big-')
    try:
        fams = []
        for k, (mb, where) in enumerate([(5, 'front'), (17, 'front'), (17, 'back'), (34, 'front'), (70, 'front'), (70, 'back'), (9, 'pixels')]):
            if where == 'pixels':
                g = Giant('gray', 7000, 7000, f'{ctx.seed}')
                data = g.encode()
                m = dict(any_meta(data)[0])
            else:
                p = ctx.plans(1, f'bigfile{k}', Ws=[33], Hs=[17], Contents=['mix'])[0]
                st = K.build(p, f'{ctx.seed}/big{k}')
                m, data = meta(st, f'big{k}')
                n = mb * 16
                if where == 'front':
                    fill = b''.join(seg(0xFE if i % 3 else 0xE0 + i % 16, ctx.rng.randbytes(65533)) for i in range(n))
                    data = data[:2] + fill + data[2:]
                else:
                    data = data + ctx.rng.randbytes(65536) * n
                m = dict(m, stream=f'big{k}', img=f'big{k}')
            f = os.path.join(d, f'{k}.jpg')
            with open(f, 'wb') as w:
                w.write(data)
            a, b = Hist().new(), Hist().new()
            a._add('G:' + f, op='decode', **dict(m, call='decode', ln=len(data)))
            b._add('F:' + f, op='file', **dict(m, call='decode', ln=len(data)))
            a.note = b.note = f'{len(data)} bytes'
            fams.append((f'big{k}', [a, b]))
        check_hist(ctx, fams, timeout_s=60, jobs=4)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# =================================================================================================== C20
def strayed(ctx, md, n):
    """the stream with n stray bytes after its first bytes"""
    m, d = md
    return dict(m, stream=m['stream'] + f'-{n}', stray=m['stray'] + n), d[:2] + bytes(ctx.rng.choice([0, 1, 0x41, 0x7F]) for _ in range(n)) + d[2:]


def c20(ctx, s):
    ps = ctx.plans(100, 'cat', Samps=ALL + ['gray', 'gray22'], Modes=['base', 'prog'], Ws=[1, 8, 16, 17, 33], Hs=[1, 8, 9, 16, 17], Contents=['sparse', 'chroma'], Huffs=['opt'],
                   MaxAl=1, CutSets='CSmall')
    base = catalogue(ctx, 'c', 8, 2, ps)

    def cat(k):
        # strict mode matters for two of the streams
        c = base(k)
        c[0] = strayed(ctx, c[0], ctx.rng.choice([4, 5, 9]))
        g = K.reference_plan(dict(samp='gray22', mode='base', w=17, h=9, content='sparse', tq=[0]))
        c[1] = meta(K.build(g, f'{ctx.seed}/gray22/{k}'), f'gs{k}')
        return c
    sp = dict(Streams=range(10), Spaces=['RGB', 'GRAY', 'YCC', 'RGBA', 'RGBX', 'CMYK', 'YCCK'], Limits=[0, 1, 8, 15, 16, 17, 33, 16384, 65535], ThreadCounts=[1, 2, 3, 9],
              Scans=[0, 1, 3, 5, 64, 1000])
    api_round(ctx, 's', int(120 * s), 8, dict(sp, Length=15, Decodes=5, Calls=['new', 'new2', 'strict', 'decode', 'headers', 'space', 'rgba', 'limits', 'threads', 'query']), cat)
    api_round(ctx, 'o', int(6 * s), 20, dict(sp, Length=12, Calls=['new', 'new2', 'options', 'query', 'space']), cat, fresh=False)
    settings(ctx, s)
    # defaults
    fams = [('defaults', [Hist().new().getters().query()])]
    check_hist(ctx, fams)


def settings(ctx, s):
    """every setting followed by every setter (and a second one), then one stream for each option that tells its value"""
    d = T.tmp('api-')
    try:
        f = api_cfg(d, Length=2 if ctx.tier == 'quick' else 3, Spaces=['RGB', 'GRAY', 'YCC', 'RGBA', 'RGBX', 'CMYK'], Limits=[0, 8, 32, 65535], ThreadCounts=[1, 3],
                    Scans=[2, 1000], Streams=[0], Calls=['new', 'space', 'rgba', 'limits', 'threads'])
        hists, (g, n) = T.all_histories('ApiGen.tla', f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.states += n
    ctx.trans += g
    hists = [h for h in hists if all(c['op'] != 'new' for c in h[1:])]
    ctx.count('setting_histories', len(hists))
    bld = lambda tag, **kw: meta(K.build(K.reference_plan(dict(dict(samp='444', mode='base', w=8, h=8, content='chroma', tq=[0] * 3), **kw)), f'{ctx.seed}/{tag}'), tag)
    pr = ctx.plans(8, 'probe', Samps=['420'], Modes=['prog'], Ws=[8], Hs=[8], CutSets='CSmall', MaxAl=2)
    pr = [p for p in pr if sum(x['t'] == 'scan' for x in p['items']) > 2][0]
    probes = [strayed(ctx, bld('stray'), 5), bld('gs', samp='gray22', tq=[0]), meta(K.build(pr, f'{ctx.seed}/probe'), 'scans'), bld('wide', w=17), bld('tall', h=17, samp='420'),
              bld('gray', samp='gray', tq=[0]), bld('wide2', w=40), bld('tall2', h=33),
              bld('one', w=1, h=1)]
    # strict mode: seen through the stray stream; the setters are made on strict and other decoders alike
    fams = []
    for k in range(0, len(hists), 40):
        hs = []
        for hist in hists[k:k + 40]:
            for st in (False, True):
                h = Hist()
                for i, c in enumerate(hist):
                    if i == 0 and st:
                        c = dict(c, sets=[dict(k='st', v=True)] + c['sets'])
                    play(h, c, None, None)
                for p in ctx.rng.sample(probes, len(probes)):
                    h.decode(p)
                h.query()
                h.note = str(hist)
                hs.append(h)
        fams.append((f'set{k}', hs))
    check_hist(ctx, fams)


# =================================================================================================== C21
def wild(ctx, n, tag, ws=(1, 8, 9, 16, 17, 33, 60), hs=(1, 8, 9, 17, 33)):
    """plans of every kind, and streams derived from them: good, with one fault, damaged, arbitrary"""
    rng = ctx.rng
    ps = ctx.plans(n, tag, Samps=ALL + GRAYS, Contents=CONTENTS, Huffs=HUFFS, QSlots=range(4), HSlots=range(4), RIs=[0, 0, 1, 3], MiscMax=2, Fills=[0, 0, 1], MaxAl=2,
                   Trails=[0, 3], Pads=[0, 1], Ws=list(ws), Hs=list(hs))
    sts = streams(ctx, ps, tag)
    pool = [st.data for _, st in sts]
    for k, (p, st) in enumerate(sts):
        bad = [entropy_fuzz(rng, st) for _ in range(5)] + [mutate_header(rng, st) for _ in range(2)] + [mutate(rng, st.data, pool) for _ in range(3)] + [hurt(st, rng), abbreviated(st, rng)]
        e = next(i for i, x in enumerate(st.parts) if x.kind == 'ecs')
        a = len(b''.join(x.data for x in st.parts[:e]))
        # cut: nothing follows, what is read past the end is not part of the stream
        bad.append(st.data[:rng.randint(a, len(st.data))])
        bad.append(st.data[:rng.randint(0, a)])
        if p['fill'] == 0:
            f = FAULTS[rng.choice(sorted(FAULTS))](st, rng)
            if f is not None:
                bad.append(f)
        yield k, p, st, meta(st, f'{tag}{k}'), [any_meta(b) for b in bad]


def c21(ctx, s):
    rng = ctx.rng
    fams = []
    for k, p, st, good, bad in wild(ctx, int(330 * s), 'a'):
        cs = rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA', 'RGBX'])
        un, th = rng.random() < .8, rng.choice([1, 2, 4])
        hs = []
        for v in ('x86', 'asan', 'odd'):
            h = Hist(variant=v).new(cs=cs, un=un, th=th, mw=200, mh=200).headers(good).decode(good)
            for b in bad:
                h.decode(b)
            h.decode(good)
            h.note = f'build={v} unsafe={un} {K_brief(p)} and damaged copies'
            hs.append(h)
        fams.append((f'a{k}', hs))
    # sizes: tails of rows and columns in every colourspace
    for k, (p, st) in enumerate(streams(ctx, ctx.plans(int(150 * s), 'tails', Samps=ALL, Ws=list(range(1, 70)), Hs=list(range(1, 40)), Modes=['base', 'base', 'prog'],
                                                    Contents=['mix', 'sparse']), 't')):
        m = meta(st, f't{k}')
        hs = []
        for v in ('x86', 'asan', 'odd'):
            h = Hist(variant=v)
            for cs in ('RGB', 'RGBA', 'RGBX', 'YCC', 'GRAY'):
                h.new(cs=cs, un=True).decode(m)
            h.note = f'build={v} {K_brief(p)}'
            hs.append(h)
        fams.append((f't{k}', hs))
    for k in range(int(24 * s)):
        sa = ALL[k % 5]
        w, h0 = [(rng.randint(300, 900), rng.randint(100, 400)), (rng.randint(4000, 65535), rng.randint(1, 20)), (rng.randint(1, 40), rng.randint(4000, 65535))][k // 5 % 3]
        kw = dict(prog=rng.random() < .4)
        m = any_meta(tiled(ctx, sa, w, h0, 'mix', kw)[1])
        hs = []
        for v in ('x86', 'asan', 'odd'):
            h = Hist(variant=v).new(cs=rng.choice(['RGB', 'RGBA', 'YCC', 'GRAY']), un=True, mw=65535, mh=65535).decode(m)
            h.note = f'build={v} {sa} {w}x{h0} {kw}'
            hs.append(h)
        fams.append((f'b{k}', hs))
    check_hist(ctx, fams, env=dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=1'), timeout_s=60)


# =================================================================================================== C22
def c22(ctx, s):
    rng = ctx.rng
    fams = []
    V = 'count'
    for k, p, st, good, bad in wild(ctx, int(250 * s), 'a', ws=(1, 8, 17, 60, 200), hs=(1, 8, 17, 60, 150)):
        h = Hist(variant=V).new(cs=rng.choice(['RGB', 'YCC', 'GRAY', 'RGBA', 'RGBX']), un=rng.random() < .8, th=rng.choice([1, 2, 4, 16]), mw=256, mh=256).headers(good).decode(good)
        for b in bad:
            h.decode(b)
        h.decode(good)
        h.note = f'{K_brief(p)} and damaged copies'
        fams.append((f'a{k}', [h]))
    # large images: within the limits, above them, with their frame only
    for k in range(int(60 * s)):
        sa = ALL[k % 5]
        w, h0 = [(rng.randint(800, 3000), rng.randint(500, 1500)), (rng.randint(4000, 65535), rng.randint(1, 40)), (rng.randint(1, 40), rng.randint(4000, 65535))][k // 5 % 3]
        kw = dict(prog=rng.random() < .4, ri=rng.choice([0, 0, 7]))
        t, d = tiled(ctx, sa, w, h0, rng.choice(['sparse', 'mix']), kw)
        m = (dict(NOSTREAM, img=f'b{k}', stream=f'b{k}', sw=w, sh=h0, comps=len(t.grid), prog=kw['prog'], scans=d.count(b'\xff\xda'), cls='good'), d)
        hs = []
        for o in (dict(mw=65535, mh=65535), dict(mw=w - 1, mh=65535), dict(mw=65535, mh=h0 - 1), dict(mw=w, mh=h0)):
            h = Hist(variant=V).new(cs=rng.choice(['RGB', 'RGBA', 'YCC', 'GRAY']), un=True, th=rng.choice([1, 2, 4, 16]), **o).headers(m).decode(m)
            cut = rng.randint(d.index(b'\xff\xda'), len(d))
            h.decode(any_meta(d[:cut]))
            h.note = f'{o} {sa} {w}x{h0} {kw}'
            hs.append(h)
        fams.append((f'b{k}', hs))
    # any declared size, little data: refused by the limits, or header reads
    for k, (p, st) in enumerate(streams(ctx, ctx.plans(int(120 * s), 'dim', Samps=ALL, Ws=[8, 16], Hs=[8, 16]), 'd')):
        sof = next(x for x in st.parts if x.kind == 'sof').data
        at = st.data.index(sof)
        w, h0 = rng.choice([(65535, 65535), (16385, 16385), (1000, 60000), (60000, 1000), (20000, 20000), (2001, 2001), (2000, 2000)])
        d = st.data[:at + 5] + bytes([h0 >> 8, h0 & 255, w >> 8, w & 255]) + st.data[at + 9:]
        m0 = meta(st, f'd{k}')[0]
        m = (dict(m0, sw=w, sh=h0, stream=m0['stream'] + '!', img=m0['img'] + '!'), d)
        h = Hist(variant=V).new(mw=65535, mh=65535, cs=rng.choice(['RGB', 'RGBA'])).headers(m)
        h.limits(2000, 2000).headers(m)
        if (w, h0) == (2000, 2000):
            h.decode(any_meta(d))
        else:
            h.decode(m)
        # followed by another fault
        h.decode(any_meta(d[:at + 9]))
        h.note = f'{w}x{h0} declared, {len(d)} bytes'
        fams.append((f'd{k}', [h]))
    check_hist(ctx, fams, timeout_s=60)
    ctx.notes['largest_need_kib'] = max(e.get('mem', 0) for _, hs in fams for h in hs for e in h.ev)


# =================================================================================================== C23
def c23(ctx, s):
    rng = ctx.rng
    ctx.errs = True
    cs = fault_cases(ctx, int(1100 * s))
    kit = streams(ctx, ctx.plans(int(40 * s), 'base', Samps=ALL + ['gray22'], Ws=[1, 8, 9, 17], Hs=[1, 8, 9, 17], Contents=['sparse'], Huffs=['opt', 'std'], QSlots=range(2),
                                 HSlots=range(2), RIs=[0, 2], MiscMax=3, CutSets='CSmall', MaxAl=1), 'k')
    # what the stream starts with
    seen = [(255, b) for b in range(256)] + [(b, 216) for b in range(256)] + [(216, 255), (0, 0), (0x89, 0x50), (0x47, 0x49), (0x42, 0x4D), (0x52, 0x49)]
    for a, b in rng.sample(seen, int(260 * s)) + [(rng.randrange(256), rng.randrange(256)) for _ in range(int(80 * s))]:
        p, st = rng.choice(kit)
        tail = rng.choice([b'', b'\xff', b'\xff\xd8', st.data[2:], st.data, st.data[2:40]])
        cs.append(abs_case(bytes([a, b]) + tail, None, cs='GRAY', gray=True, hdr=rng.random() < .4, strict=rng.random() < .2, note=f'starts with {a:02x}{b:02x}'))
    # frames of every kind, in place of the frame header or as a further segment, anywhere in the headers
    for p, st in kit:
        i = next(j for j, x in enumerate(st.parts) if x.kind == 'sof')
        last = next(j for j, x in enumerate(st.parts) if x.kind == 'sos')
        sof = st.parts[i].data
        k = 0
        while sof[k] == 255:
            k += 1
        for m in (0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF):
            if m == sof[k]:
                continue
            x = sof[:k] + bytes([m]) + sof[k + 1:]
            d = [y.data for y in st.parts]
            if rng.random() < .5:
                d[i] = x
            else:
                d.insert(rng.randint(1, last), x)
            cs.append(abs_case(b''.join(d), p, cs='GRAY', gray=True, hdr=rng.random() < .4, strict=rng.random() < .1, note=f'frame header {m:02x}'))
        # no width, no height, limits
        for w, h in ((0, 9), (9, 0), (0, 0), (0, 40), (40, 0), (0, 256), (256, 0)):
            x = bytearray(sof)
            x[k + 4:k + 8] = bytes([h >> 8, h & 255, w >> 8, w & 255])
            if rng.random() < .2:
                x[k + 3] = rng.choice([0, 7, 9, 12, 16])
            d = [y.data for y in st.parts]
            d[i] = bytes(x)
            lim = rng.choice([(16384, 16384), (64, 64), (0, 64), (64, 0), (300, 8)])
            cs.append(abs_case(b''.join(d), p, cs='GRAY', gray=True, mw=lim[0], mh=lim[1], hdr=rng.random() < .4, note=f'{w}x{h} limits {lim}'))
    cs += [dict(c, hdr=True, note=c['note'] + ' (read_headers)') for c in rng.sample(cs[:int(1000 * s)], int(400 * s))]
    ctx.log(check_abs(ctx, cs))
    header_sweep(ctx, int(4000 * s))
    header_cases(ctx, int(3000 * s), hdr=.3, strict=.05)
    ctx.log(check_abs(ctx, rng.sample(shape_cases(ctx, [x for x in ctx.shapes() if not x['legal']]), int(500 * s))))
    segment_orders(ctx, [(['q1', 'd1', 'a1', 'base', 'prog', 'scan', 'dc', 'sof1', 'eoi'], ['nothing'], 4), (SEGS, ['header'], 2), (SEGS, ['first'], 2)])
    segment_orders(ctx, [(['q1', 'd1', 'a1', 'base', 'prog', 'scan', 'dc', 'sof1'], ['nothing'], 4), (SEGS, ['header'], 2)], hdr=True)


# =================================================================================================== C24
def shorten(st, rng):
    """the data of some restart intervals ends early; all markers stay.  (bytes, intervals cut) or None"""
    j = rng.choice([i for i, x in enumerate(st.parts) if x.kind == 'ecs'])
    b = st.parts[j].data
    at = [i for i in range(len(b) - 1) if b[i] == 255 and 0xD0 <= b[i + 1] <= 0xD7]
    if not at:
        return None
    ends = at + [len(b)]
    begins = [0] + [i + 2 for i in at]
    cut = set(rng.sample(range(len(at)), min(len(at), rng.choice([1, 1, 1, 2, 3, 50]))))
    if rng.random() < .1:
        cut.add(len(at))
    out = b''
    for k, (a, e) in enumerate(zip(begins, ends)):
        x = b[a:e]
        if k in cut:
            x = x[:rng.choice([0, 1, len(x) // 2, max(0, len(x) - 1), rng.randint(0, len(x))])]
            if x.endswith(b'\xff'):
                x = x[:-1]
            # FF fill bytes before the marker may have been left
            if rng.random() < .2:
                x += b'\xff'
        out += x + (b[e:e + 2] if k < len(at) else b'')
    pre, post = b''.join(x.data for x in st.parts[:j]), b''.join(x.data for x in st.parts[j + 1:])
    return pre + out + post, sorted(cut)


def c24(ctx, s):
    rng = ctx.rng
    sp = dict(Samps=ALL + ['gray22'], Contents=['sparse', 'dense', 'mix', 'dc', 'bigac', 'extreme'], Huffs=['opt', 'std', 'any', 'full'], QSlots=[0, 1], HSlots=[0, 1],
              Pads=[0, 1], Fills=[0, 0, 1])
    cs = []
    for tag, n, o in (('r', 170, dict(Ws=W1[3:], Hs=H1[2:], RIs=[1, 1, 2, 3, 5])),
                      ('big', 5, dict(Ws=[96, 120, 160], Hs=[40, 64, 100], RIs=[1, 4, 7, 9, 20, 40, 60])),
                      ('prog', 110, dict(Modes=['prog'], Ws=W1[3:], Hs=H1[2:], RIs=[1, 1, 2, 3, 5], MaxAl=2, MiscMax=1)),
                      ('long', 4, dict(Samps=['gray', '444'], Ws=[128, 160, 200], Hs=[64, 80], RIs=[50, 70, 100, 150], Contents=['sparse', 'mix', 'dc']))):
        for p, st in streams(ctx, ctx.plans(int(n * s), tag, **dict(sp, **dict(dict(Modes=['base']), **o))), tag):
            for _ in range(3):
                d = shorten(st, rng)
                if d is None:
                    continue
                gray = rng.random() < .1
                cs.append(abs_case(d[0], p, cs='GRAY' if gray else 'YCC', gray=gray or is_gray(p), unsafe=rng.random() < .7, threads=rng.choice([1, 2, 4, 7]),
                                   strict=rng.random() < .1 and not p['fill'], note=f'intervals cut: {d[1]}'))
    # every way to leave out MCUs at the ends of the intervals of small images
    for c in ctx.cases('CutsCases', 'Cuts.cfg'):
        if rng.random() > (.75 if s <= 1 else 1):
            continue
        sa = rng.choice(ALL)
        hm, vm = K.SAMP[sa][0] if sa != 'gray' else (1, 1)
        rows = rng.choice([r for r in (1, 2, 3, 4) if c['n'] % r == 0])
        w, h = 8 * hm * (c['n'] // rows) - rng.choice([0, rng.randrange(8)]), 8 * vm * rows - rng.choice([0, rng.randrange(8)])
        plan = K.reference_plan(dict(samp=sa, mode='base', w=w, h=h, content=rng.choice(['mix', 'sparse', 'dense', 'dc']), tq=[0] * len(K.SAMP[sa])))
        plan = dict(plan, keep=c['keep'], pad=rng.randrange(2), huff=rng.choice(['std', 'opt', 'full']), items=[dict(x, ri=c['ri']) if x['t'] == 'dri' else x for x in plan['items']])
        st = K.build(plan, f'{ctx.seed}/{ctx.round}/cut/{rng.random()}')
        cs.append(abs_case(st.data, plan, cs='YCC', gray=is_gray(plan), unsafe=rng.random() < .7, note=f"{c['n']} MCUs, interval {c['ri']}, kept {c['keep']}"))
    ctx.log(check_abs(ctx, cs))
    ctx.count('cut_intervals', len(cs))
    ctx.log(check_abs(ctx, [c for c in cs if rng.random() < .12], variant='scalar'))


CHECKS = {f'C{i:02d}': globals()[f'c{i:02d}'] for i in range(1, 25)}

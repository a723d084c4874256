"""Common parts of the checks: running the real decoder, recording what it did, and having TLC judge the record."""
import hashlib
import json
import os
import random
import time

import concretise as K
import run as R
import tlc as T

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}/{seed}')
        self.t0 = time.time()
        self.bins = {}
        self.viol = []                 # (what, replay dict)
        self.states = self.trans = 0   # TLC states of trace checking and models
        self.traces = 0                # recorded executions judged by TLC
        self.calls = 0                 # calls of the real decoder
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.round = 0
        self.errs = False              # the kinds of errors are judged too

    def log(self, *a):
        print(f'[{self.prop} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    def count(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def bin(self, variant='x86'):
        if variant not in self.bins:
            self.bins[variant] = R.build_sched() if variant == 'sched' else R.build(variant)
        return self.bins[variant]

    def sample(self, what):
        if len(self.samples) < 4:
            self.samples.append(what)

    def violation(self, what, replay):
        self.viol.append((what, replay))
        self.log('!!', what)
        if len(self.viol) >= 25:
            raise Stop

    def subseed(self, *a):
        return int.from_bytes(hashlib.sha256(repr((self.prop, self.seed, self.round) + a).encode()).digest()[:3], 'big')

    def plans(self, n, tag='', depth=160, **over):
        ps = T.plans(over, n, self.subseed('plans', tag), depth=depth)
        self.count('plans', len(ps))
        return ps

    def scripts(self, tag, **over):
        ps, (g, d) = T.scripts(over)
        self.states += d
        self.trans += g
        self.count('scripts_' + tag, len(ps))
        return ps

    def segments(self, items, starts, length):
        r, (g, d) = T.segments(items, starts, length)
        self.states += d
        self.trans += g
        self.count('segment_sequences', len(r))
        return r

    def cases(self, module, cfg):
        r, (g, d) = T.cases(module + '.tla', cfg)
        self.states += d
        self.trans += g
        self.count('model_states_' + cfg.replace('.cfg', ''), d)
        self.count('cases_' + cfg.replace('.cfg', ''), len(r))
        return r

    def shapes(self, cfg='Huffman.cfg'):
        r, (g, d) = T.shapes(cfg)
        self.states += d
        self.trans += g
        self.count('huffman_shapes', len(r))
        return r

    def model(self, module, cfg=None, **kw):
        g, d = T.check_model(module + '.tla', cfg or module + '.cfg', **kw)
        self.states += d
        self.trans += g
        self.count('model_states_' + (cfg or module).replace('.cfg', ''), d)
        return d


# ------------------------------------------------------------------------------------------------ absolute checking
def abs_case(data, plan=None, cs='YCC', unsafe=True, threads=4, mw=16384, mh=16384, ms=64, strict=False, hdr=False, gray=False,
             tol=1, note=''):
    """one decode to be judged by Decoder.tla; `gray`: only the Y samples are returned"""
    return dict(data=data, cs=cs, unsafe=unsafe, threads=threads, mw=mw, mh=mh, ms=ms, strict=strict, hdr=hdr, gray=gray, tol=tol,
                note=note, plan=plan)


def info_fields(r):
    """comps, prog from the info of a result"""
    if r.info == '-':
        return 0, False
    return int(r.info.split('/')[0].split('x')[2]), 'Progressive' in r.info


def check_abs(ctx, cases, variant='x86', expect=None):
    """runs the cases on the decoder, then DecodeTrace.tla on the record; expect: verdicts the cases were made for"""
    if not cases:
        return {}
    sess = []
    for c in cases:
        sess.append([R.opts(c['cs'], c['unsafe'], c['threads'], c['mw'], c['mh'], c['ms'], c['strict']),
                     ('h:' if c['hdr'] else 'd:') + c['data'].hex()])
    res = R.run(ctx.bin(variant), sess)
    ctx.calls += len(sess)
    rec, early = [], {}
    for i, (c, rs) in enumerate(zip(cases, res)):
        r = rs[-1]
        if r.kind == 'skipped':
            continue
        comps, prog = info_fields(r)
        kind = r.kind.split(':')[0]
        if kind not in ('ok', 'err'):
            early[i] = r.kind
        rec.append(dict(id=str(i), bytes=list(c['data']), maxw=c['mw'], maxh=c['mh'], maxs=c['ms'], strict=c['strict'], hdr=c['hdr'],
                        gray=c['gray'], nocs=c['cs'] in ('CMYK', 'YCCK'), tol=c['tol'], kind=kind, err=r.kind.split(':')[1] if kind == 'err' else '', errs=ctx.errs, w=r.w, h=r.h, n=r.n, comps=comps,
                        prog=prog, px=list(r.px) if r.px else []))
    # big cases first, spread over the lanes
    rec.sort(key=lambda c: -(len(c['px']) + 8 * len(c['bytes'])))
    out = T.trace('DecodeTrace', rec)
    ver = {v[0]: (v[1], v[2] if len(v) > 2 else '') for v in T.says(out, 'VERDICT')}
    if len(ver) != len(rec):
        raise T.TlcError(f'{len(rec) - len(ver)} cases without verdict:\n' + out[-3000:])
    g, d = T.states(out)
    ctx.states += d
    ctx.trans += g
    ctx.traces += len(rec)
    hist = {}
    for k, (v, why) in ver.items():
        hist[v + (': ' + why if why else '')] = hist.get(v + (': ' + why if why else ''), 0) + 1
        ctx.count('verdict_' + v)
        if v == 'part' and res[int(k)][-1].kind == 'ok':
            ctx.count('part_decoded')
        ctx.distinct.add(hashlib.sha1(cases[int(k)]['data']).hexdigest()[:12] + cases[int(k)]['cs'])
    done = set()
    for x in T.says(out, 'REJECT'):
        i = int(x[0])
        if i in done:
            continue
        done.add(i)
        c = cases[i]
        what = x[1] if i not in early else early[i]
        ctx.violation(f"{what}; specification says {' '.join(ver[str(i)]).strip()}; {c['note']} {describe(c)}",
                      dict(kind='abs', why=what, session=';'.join(sess[i]), plan=c['plan'], variant=variant,
                           case={k: c[k] for k in c if k not in ('data', 'plan')}))
    c = cases[0]
    ctx.sample(dict(stream=c['data'].hex()[:400], options={k: c[k] for k in ('cs', 'unsafe', 'threads', 'strict', 'hdr')},
                    verdict=' '.join(ver.get('0', ())).strip(), plan=brief(c['plan'])))
    ctx.last_verdicts = [ver.get(str(i), ('skipped', '')) for i in range(len(cases))]
    return hist


def brief(p):
    if not p:
        return None
    return {k: v for k, v in p.items() if k in ('samp', 'mode', 'w', 'h', 'content', 'huff', 'tq', 'td', 'ta', 'fill', 'pad', 'fault')} | {
        'items': [x['t'] if x['t'] != 'scan' else f"scan{x['cs']}{x['ss']}-{x['se']}:{x['ah']}{x['al']}" for x in p.get('items', [])]}


def describe(c):
    p = c.get('plan')
    return f"cs={c.get('cs')} unsafe={c.get('unsafe')} thr={c.get('threads')} {brief(p) if p else ''}"[:400]


# ------------------------------------------------------------------------------------------------ histories of calls
NOSTREAM = dict(more='', img='', stream='', call='', sw=0, sh=0, comps=0, prog=False, scans=0, gs=False, stray=0, cls='any')
KEYS = {'cs': 'cs', 'un': 'un', 'th': 'th', 'mw': 'mw', 'mh': 'mh', 'ms': 'ms', 'st': 'st'}


def meta(stream, img, cls='good'):
    """what Object.tla needs to know about a stream built by concretise"""
    p = stream.plan
    stray = 0
    for part in stream.parts[1:]:
        n = 0
        while n < len(part.data) and part.data[n] == 255:
            n += 1
        stray = max(stray, n - 1)
        if part.kind == 'sos':
            break
    d = stream.data
    return dict(img=img, stream=hashlib.sha1(d).hexdigest()[:16], sw=p['w'], sh=p['h'], comps=len(stream.img.comps),
                prog=p['mode'] == 'prog', scans=sum(1 for x in p['items'] if x['t'] == 'scan'),
                gs=p['samp'] in ('gray22', 'gray21', 'gray12'), stray=stray, cls=cls), d


def any_meta(data, cls='any'):
    h = hashlib.sha1(data).hexdigest()[:16]
    return dict(NOSTREAM, img=h, stream=h, cls=cls), data


class Hist:
    """one session: calls on one decoder object (new replaces it)"""

    def __init__(self, variant='x86', par=False):
        self.ops, self.ev, self.variant = [], [], variant
        self.note = ''

    def _add(self, line, **ev):
        self.ops.append(line)
        self.ev.append(ev)
        return self

    def new(self, *sets, **kw):
        """sets: (option, value) pairs in call order"""
        sets = list(sets) + list(kw.items())
        f = lambda v: ('1' if v else '0') if isinstance(v, bool) else str(v)
        return self._add('no:' + '/'.join(f'{k}={f(v)}' for k, v in sets), op='new', sets=[dict(k=k, v=v) for k, v in sets])

    def getters(self, *sets):
        f = lambda v: ('1' if v else '0') if isinstance(v, bool) else str(v)
        return self._add('og:' + '/'.join(f'{k}={f(v)}' for k, v in sets), op='options', sets=[dict(k=k, v=v) for k, v in sets])

    def decode(self, md):
        m, d = md
        return self._add('D:' + d.hex(), op='decode', **dict(m, call='decode', ln=len(d)))

    def headers(self, md):
        m, d = md
        return self._add('h:' + d.hex(), op='headers', **dict(m, call='headers', ln=len(d)))

    def file(self, md, path):
        m, d = md
        return self._add('F:' + path, op='file', **dict(m, call='decode', ln=len(d)))

    def write(self, path, d):
        """not a call: gives the file these contents"""
        return self._add(f'W:{path}:' + d.hex(), op='query')

    def nofile(self, path):
        return self._add('F:' + path, op='nofile')

    def space(self, cs):
        return self._add('sc:' + cs, op='set_output_colorspace', cs=cs)

    def rgba(self):
        return self._add('sr', op='rgba')

    def limits(self, w, h):
        return self._add(f'sl:{w},{h}', op='set_limits', mw=w, mh=h)

    def threads(self, n):
        return self._add(f'st:{n}', op='set_num_threads', th=n)

    def query(self):
        return self._add('q', op='query')


def observe(ev, r):
    k = r.kind.split(':')
    ev.update(mem=r.mem // 1024, kind=k[0], var=k[1] if k[0] == 'err' else r.kind if k[0] != 'ok' else '', w=r.w, h=r.h, ocs=r.cs, n=r.n,
              dig=r.px.hex() if r.px else '')
    if ev['op'] == 'options':
        f = r.info.split('/')
        ev['got'] = dict(cs=f[0], un=f[1] == '1', th=int(f[2]), mw=int(f[3]), mh=int(f[4]), ms=int(f[5]), st=f[6] == '1')
    elif r.info == '-':
        ev['info'], ev['more'] = dict(w=0, h=0, comps=0, prog=False), ''
    else:
        a = r.info.split('/')[0].split('x')
        ev['more'] = '/'.join(r.info.split('/')[1:])
        ev['info'] = dict(w=int(a[0]), h=int(a[1]), comps=int(a[2]), prog='Progressive' in r.info)


def check_hist(ctx, families, par=0, timeout_s=20, jobs=8, env=None, shuffle=False):
    """families: list of (name, [Hist...]); runs them and has ObjectTrace.tla judge the record"""
    flat = [(f, h) for f, (_, hs) in enumerate(families) for h in hs]
    for v in sorted({h.variant for _, h in flat}):
        mine = [h for _, h in flat if h.variant == v]
        if shuffle:
            ctx.rng.shuffle(mine)
        e = dict(env or {})
        if par:
            e['RUNNER_PAR'] = str(par)
        res = R.run(ctx.bin(v), [h.ops for h in mine], timeout_s=timeout_s, env=e, jobs=jobs)
        for h, rs in zip(mine, res):
            h.out = rs
            ctx.calls += sum(1 for x in h.ev if x['op'] in ('decode', 'headers', 'file'))
    rec, where = [], []
    for name, hs in families:
        ev, wh = [], []
        for h in hs:
            if h.out[0].kind == 'skipped':
                continue
            if isinstance(h.out[0], R.Fail):
                # the process died somewhere in this session: blame its last call
                last = max((j for j, x in enumerate(h.ev) if x['op'] in ('decode', 'headers', 'file')), default=0)
                if h.ev[0]['op'] == 'new' and last > 0:
                    ev.append(dict(h.ev[0], kind='ok', var='', ocs=expected_cs(h.ev[0])))
                    wh.append((h, 0))
                observe(h.ev[last], h.out[0])
                ev.append(h.ev[last])
                wh.append((h, last))
                continue
            for i, (e, r) in enumerate(zip(h.ev, h.out)):
                observe(e, r)
                ev.append(e)
                wh.append((h, i))
        rec.append(dict(id=name, ev=ev))
        where.append(wh)
    keep = [x for x in zip(rec, where) if x[0]['ev']]
    keep.sort(key=lambda x: -len(x[0]['ev']))
    rec, where = [x[0] for x in keep], {x[0]['id']: x[1] for x in keep}
    out = T.trace('ObjectTrace', rec)
    g, d = T.states(out)
    want = 16 + sum(1 + len(x['ev']) for x in rec)
    if d != want:
        raise T.TlcError(f'ObjectTrace explored {d} states, {want} expected:\n' + out[-3000:])
    ctx.states += d
    ctx.trans += g
    ctx.traces += len(flat)
    for x in rec:
        for e in x['ev']:
            if e['op'] in ('decode', 'file', 'headers'):
                ctx.distinct.add(e['stream'] + e['op'] + e['ocs'])
                ctx.count('outcome_' + e['kind'])
    seen = set()
    for x in T.says(out, 'REJECT'):
        name, pos, what = x[0], x[1], x[2]
        h, i = where[name][pos - 1]
        if (name, what) in seen:
            continue
        seen.add((name, what))
        ctx.violation(f'{what}: family {name}, call {i} {h.ev[i]["op"]}; {h.note}'[:600],
                      dict(kind='hist', why=what, family=name, call=i, variant=h.variant, note=h.note, session=';'.join(h.ops),
                           events=[{k: v for k, v in e.items()} for e in h.ev],
                           others=[dict(session=';'.join(o.ops)[:20000], variant=o.variant) for o in dict(families)[name][:6]]))
    h = flat[0][1]
    ctx.sample(dict(calls=[o[:120] for o in h.ops], observed=[{k: e[k] for k in ('op', 'kind', 'ocs', 'n', 'dig') if k in e} for e in h.ev],
                    note=h.note[:200]))


def expected_cs(ev):
    return next((s['v'] for s in reversed(ev['sets']) if s['k'] == 'cs'), 'RGB')


# ------------------------------------------------------------------------------------------------ pixel relations
def check_pixels(ctx, cases, replays):
    if not cases:
        return
    cases = sorted(cases, key=lambda c: -(c['w'] * c['h']))
    out = T.trace('PixelTrace', cases)
    g, d = T.states(out)
    size = lambda c: {'color': c['w'] * c['h'], 'cells': -(-c['w'] // 8) * -(-c['h'] // 8),
                      'tiles': -(-c['w'] // 8) * -(-c['h'] // 8)}.get(c['t'], c['h'])
    ctx.states += d
    ctx.trans += g
    ctx.traces += len(cases)
    done = set()
    for x in T.says(out, 'REJECT'):
        if x[0] in done:
            continue
        done.add(x[0])
        ctx.violation(f'{x[1]}: {replays[x[0]].get("note", "")}', dict(replays[x[0]], kind='pixels', why=x[1]))
    if not done:
        want = 16 + sum(1 + -(-size(c) // 256) for c in cases)
        if d != want:
            raise T.TlcError(f'PixelTrace explored {d} states, {want} expected')


# ------------------------------------------------------------------------------------------------ ending
def finish(ctx, level, rule, assumptions, err=None):
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level,
              coverage=dict(states=ctx.states, transitions=ctx.trans, traces_validated_against_impl=ctx.traces,
                            evaluations=ctx.calls, distinct_nontrivial=len(ctx.distinct), rule=rule, samples=ctx.samples,
                            **{'n_' + k: v for k, v in sorted(ctx.notes.items())}),
              assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ctx.prop + '.json'), 'w') as w:
        json.dump(ev, w, indent=1)
    if ctx.viol:
        d = os.path.join(ROOT, 'out', ctx.prop)
        os.makedirs(d, exist_ok=True)
        for i, (what, rep) in enumerate(ctx.viol):
            f = os.path.join(d, f'{ctx.tier}-{ctx.seed}-{i}.json')
            with open(f, 'w') as w:
                json.dump(dict(property=ctx.prop, what=what, **rep), w, indent=1)
            if i < 10:
                print(f'  {what}')
            if i == 0:
                first = f
        print(f'VIOLATION property={ctx.prop} replay={first}')
        return 1
    ctx.log(f'held: {ctx.calls} calls of the decoder, {ctx.traces} traces checked, {ctx.states} states, {ctx.notes}')
    return 0

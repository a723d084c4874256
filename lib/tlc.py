"""Runs TLC on the modules in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    """the tool failed (not a verdict about the code)"""


def tmp(prefix):
    d = os.path.join(BUILD, 'tmp')
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=d)


def tlc(module, cfg, args=(), env=None, workers=8, heap='6g', timeout=840):
    d = tmp('tlc-')
    try:
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={d}', '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', d, '-noGenerateSpecTE', *args, '-config', cfg, module]
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        raise TlcError(f'{module}: no end after {timeout} s') from e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def states(out):
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def check_model(module, cfg, workers=8, timeout=840, args=()):
    """exhaustive check of a design model: (generated, distinct)"""
    rc, out = tlc(module, cfg, args=args, workers=workers, timeout=timeout)
    if rc != 0 or 'No error has been found' not in out:
        raise TlcError(f'{module}/{cfg}:\n' + out[-3000:])
    return states(out)


TOKEN = re.compile(r'"((?:[^"\\]|\\.)*)"|(-?\d+)')


def says(out, tag):
    """tuples printed by PrintT(<<tag, ...>>)"""
    r = []
    # PrintT may wrap long tuples over several lines
    for m in re.finditer(r'<<\s*"%s",(.*?)>>' % tag, out, re.S):
        r.append([a if b == '' else int(b) for a, b in TOKEN.findall(m.group(1))])
    return r


def trace(module, cases, workers=8, timeout=840, heap='8g', cfg=None):
    """checks recorded cases (list of dicts, one json line each) with a trace module"""
    d = tmp('trace-')
    try:
        f = os.path.join(d, 't.ndjson')
        with open(f, 'w') as w:
            for c in cases:
                w.write(json.dumps(c, separators=(',', ':')) + '\n')
        rc, out = tlc(module + '.tla', cfg or module + '.cfg', env={'TRACE': f}, workers=workers, timeout=timeout, heap=heap)
        if rc != 0 or 'No error has been found' not in out:
            raise TlcError(f'{module}:\n' + out[-4000:])
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


GEN_DEFAULT = {
    'Samps': ['gray', '444', '422', '440', '420'], 'Modes': ['base', 'prog'], 'Ws': [1, 7, 8, 9, 16, 17, 33],
    'Hs': [1, 8, 9, 16, 17, 24], 'Contents': ['sparse', 'dense', 'mix'], 'Huffs': ['opt', 'std', 'any'], 'QSlots': [0, 1],
    'HSlots': [0, 1], 'RIs': [0], 'MiscMax': 0, 'Decoys': [False], 'Fills': [0], 'Pads': [1], 'Trails': [0], 'CutSets': 'CS',
    'MaxAl': 2, 'MinAl': 0, 'MaxRuns': [32767], 'Partial': [False], 'Spaces': ['YCC'], 'Threads': [4], 'Faults': ['none'],
    'Stricts': [False]}


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, (list, tuple, set, range)):
        return '{' + ', '.join(tla(x) for x in v) + '}'
    return str(v)


def gen_cfg(over, path, inv='Emit LegalScript TablesFirst', spec='Spec'):
    c = dict(GEN_DEFAULT, **over)
    with open(path, 'w') as w:
        w.write(f'SPECIFICATION {spec}\nCONSTANTS\n')
        for k, v in c.items():
            if k == 'CutSets':
                w.write(f'  {k} <- {v}\n')
            else:
                w.write(f'  {k} = {tla(v)}\n')
        w.write(f'INVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n')


def parse_lines(out, tag):
    r = []
    for line in out.splitlines():
        if line.startswith(f'"{tag} '):
            r.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return r


def _simulate(module, cfg, n, seed, depth):
    rc, out = tlc(module, cfg, args=['-simulate', f'num={n}', '-depth', str(depth), '-seed', str(seed)], workers=1, heap='2g')
    if 'Error' in out or rc != 0:
        raise TlcError(f'{module}:\n' + out[-3000:])
    return out


def plans(over, n, seed, jobs=4, depth=160):
    """n random plans of Stream.tla with the given choice sets"""
    from concurrent.futures import ThreadPoolExecutor
    d = tmp('gen-')
    try:
        cfg = os.path.join(d, 'gen.cfg')
        gen_cfg(over, cfg)
        jobs = max(1, min(jobs, n // 60))
        per = -(-n // jobs)
        with ThreadPoolExecutor(jobs) as ex:
            outs = list(ex.map(lambda k: _simulate('StreamGen.tla', cfg, per, seed * 1000 + k, depth), range(jobs)))
        r = [p for o in outs for p in parse_lines(o, 'PLAN')]
        # a walk that is longer than the depth gives no plan
        if len(r) < n // 2:
            raise TlcError(f'only {len(r)} of {n} plans')
        return r[:n]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def histories(module, cfg, n, seed, depth=40, jobs=2):
    from concurrent.futures import ThreadPoolExecutor
    per = -(-n // jobs)
    with ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda k: _simulate(module, cfg, per, seed * 1000 + k, depth), range(jobs)))
    return [p for o in outs for p in parse_lines(o, 'HIST')][:n]


def all_histories(module, cfg):
    """every history of the module (breadth first)"""
    rc, out = tlc(module, cfg, workers=4, heap='4g')
    if 'Error' in out or rc != 0:
        raise TlcError(f'{module}:\n' + out[-3000:])
    return sorted(parse_lines(out, 'HIST'), key=json.dumps), states(out)


def scripts(over):
    """every plan of Scripts.tla (breadth first): all legal scan scripts for the given choice sets"""
    d = tmp('gen-')
    try:
        cfg = os.path.join(d, 'gen.cfg')
        gen_cfg(dict(dict(HSlots=[0], QSlots=[0], Modes=['prog']), **over), cfg, inv='Emit LegalScript Downwards', spec='ScriptSpec')
        rc, out = tlc('Scripts.tla', cfg, workers=4, heap='4g')
        if 'Error' in out or rc != 0:
            raise TlcError('Scripts:\n' + out[-3000:])
        return sorted(parse_lines(out, 'PLAN'), key=json.dumps), states(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shapes(cfg='Huffman.cfg'):
    """every vector of counts of Huffman.tla, after the model has been checked"""
    rc, out = tlc('Huffman.tla', cfg)
    if rc != 0 or 'No error has been found' not in out:
        raise TlcError('Huffman:\n' + out[-3000:])
    return sorted(parse_lines(out, 'SHAPE'), key=json.dumps), states(out)


def segments(items, starts, length):
    """every sequence of Segments.tla"""
    d = tmp('gen-')
    try:
        cfg = os.path.join(d, 'gen.cfg')
        with open(cfg, 'w') as w:
            w.write(f'SPECIFICATION SSpec\nCONSTANTS\n  Items = {tla(items)}\n  Starts = {tla(starts)}\n  MaxLen = {length}\n'
                    'INVARIANTS Remembers EmitSeq\nCHECK_DEADLOCK FALSE\n')
        rc, out = tlc('Segments.tla', cfg, workers=4, heap='4g')
        if rc != 0 or 'No error has been found' not in out:
            raise TlcError('Segments:\n' + out[-3000:])
        return sorted(parse_lines(out, 'SEGS'), key=json.dumps), states(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(module, cfg):
    """what a design model prints, after it has been checked"""
    rc, out = tlc(module, cfg)
    if rc != 0 or 'No error has been found' not in out:
        raise TlcError(f'{module}/{cfg}:\n' + out[-3000:])
    return sorted(parse_lines(out, 'CASE'), key=json.dumps), states(out)

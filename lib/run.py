"""Runs API sessions on the real decoder through harness/runner."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(ROOT, 'harness')


def build(variant='x86'):
    """build the runner from /repo's working tree; returns the binary's path
    x86: as shipped; scalar: without its x86 feature; sse: without AVX2; odd: an allocator that aligns nothing more than asked;
    count: tells how much memory a call needed; asan: accesses outside of buffers end the process; sched: a thread pool that follows a schedule;
    debug, debugscalar: arithmetic overflow and failed debug assertions panic"""
    tgt = os.path.join(ROOT, 'build', 'target-' + variant)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt, CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    env.pop('RUSTFLAGS', None)
    if variant == 'sse':
        env['RUSTFLAGS'] = '--cfg zune_no_avx2'
    if variant.startswith('debug'):
        env['CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS'] = 'true'
        env['CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS'] = 'true'
    cmd = ['cargo', 'build', '--release', '--offline', '--quiet']
    if variant in ('scalar', 'debugscalar'):
        cmd += ['--no-default-features']
    if variant in ('odd', 'count'):
        cmd += ['--features', variant]
    if variant == 'asan':
        env['RUSTFLAGS'] = '-Zsanitizer=address -Zub-checks=yes'
        cmd = ['cargo', '+nightly'] + cmd[1:] + ['--target', 'x86_64-unknown-linux-gnu']
    p = subprocess.run(cmd, cwd=HARN + '-sched' if variant == 'sched' else HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('cargo build failed:\n' + p.stdout[-4000:])
    return os.path.join(tgt, 'x86_64-unknown-linux-gnu' if variant == 'asan' else '', 'release', 'runner')


def build_sched():
    """the runner with a thread pool that runs its jobs in the order RUNNER_SCHED says"""
    return build('sched')


class Res:
    __slots__ = ('kind', 'w', 'h', 'info', 'cs', 'n', 'px', 'mem')

    def __init__(self, s):
        f = s.split(',')
        self.kind, self.w, self.h, self.info, self.cs, self.n = f[0], int(f[1]), int(f[2]), f[3], f[4], int(f[5])
        self.px = bytes.fromhex(f[6]) if self.n >= 0 else None
        self.mem = int(f[7]) if len(f) > 7 else -1

    def __repr__(self):
        return f'<{self.kind} {self.w}x{self.h} info={self.info} cs={self.cs} n={self.n}>'


class Fail:
    """the process died (signal / abort) or hung while running a session"""
    w = h = 0
    info, cs, n, px, mem = '-', '-', -1, None, -1

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return f'<{self.kind}>'


def _one(binary, lines, timeout_s, env):
    """run lines (list of (id, opsstring)); restart after a crash/hang"""
    out, i, hangs, crashes = {}, 0, 0, 0
    while i < len(lines):
        if hangs >= 3 or crashes >= 25:
            # enough to report; the rest is not run
            for k, _ in lines[i:]:
                out[k] = [Fail('skipped')]
            break
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=dict(os.environ, RUNNER_TIMEOUT_S=str(timeout_s), **env), text=True)
        import threading

        def feed(batch=lines[i:], p=p):
            try:
                for k, ops in batch:
                    p.stdin.write(f'{k} {ops}\n')
                p.stdin.close()
            except BrokenPipeError:
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        for line in p.stdout:
            k, r = line.rstrip('\n').split(' ', 1)
            assert k == str(lines[i][0]), (k, lines[i][0])
            out[lines[i][0]] = [Res(x) for x in r.split('|')]
            i += 1
        rc = p.wait()
        t.join(5)
        if i < len(lines):
            out[lines[i][0]] = [Fail('hang' if rc == 77 else f'crash:{rc}')]
            i += 1
            hangs += rc == 77
            crashes += rc != 77
    return out


def run(binary, sessions, timeout_s=20, jobs=8, env=None):
    """sessions: list of op lists; returns list of result lists in order"""
    from concurrent.futures import ThreadPoolExecutor
    lines = [(i, ';'.join(s)) for i, s in enumerate(sessions)]
    parts = [lines[k::jobs] for k in range(jobs)]
    out = {}
    with ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(lambda p: _one(binary, p, timeout_s, env or {}), [p for p in parts if p]):
            out.update(o)
    return [out[i] for i in range(len(sessions))]


def opts(cs='-', unsafe='-', threads='-', mw='-', mh='-', ms='-', strict='-'):
    f = lambda x: ('1' if x else '0') if isinstance(x, bool) else str(x)
    return 'n:' + ','.join(map(f, (cs, unsafe, threads, mw, mh, ms, strict)))

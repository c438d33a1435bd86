"""Build the sweep harness against /repo's working tree and run it (bounded search on the real code)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(V, 'work')
REPO = '/repo'

CONFIGS = {
    'scalar': dict(features=[], flags='-C target-cpu=x86-64'),
    'sse2': dict(features=['simd'], flags='-C target-cpu=x86-64'),
    'avx2': dict(features=['simd'], flags='-C target-cpu=x86-64 -C target-feature=+avx2'),
    # AddressSanitizer: a read of even one byte outside the text is caught
    'asan': dict(features=['simd'], flags='-C target-cpu=x86-64 -Zsanitizer=address', asan=True),
    'asan-avx2': dict(features=['simd'], flags='-C target-cpu=x86-64 -C target-feature=+avx2 -Zsanitizer=address', asan=True),
    'typed': dict(features=['msg', 'simd'], flags='-C target-cpu=x86-64'),
    'serde': dict(features=['msg', 'simd', 'serde'], flags='-C target-cpu=x86-64'),
    'client': dict(features=['msg', 'simd', 'client'], flags='-C target-cpu=x86-64 --cfg tmi_verif'),
    # the client's own way of opening connections
    'tls': dict(features=['msg', 'simd', 'tls'], flags='-C target-cpu=x86-64'),
}


def cpu_has_avx2():
    try:
        return ' avx2' in open('/proc/cpuinfo').read()
    except OSError:
        return False


def usable(cfg):
    return not cfg.endswith('avx2') or cpu_has_avx2()


def env():
    e = dict(os.environ)
    e.update(HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_HOME=e.get('CARGO_HOME', '/root/.cargo'))
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    return e


def source_hash():
    """of everything the search is built from"""
    h = hashlib.sha256()
    for top in (os.path.join(REPO, 'src'), os.path.join(V, 'harness', 'src')):
        for root, dirs, files in os.walk(top):
            dirs.sort()
            for fn in sorted(files):
                p = os.path.join(root, fn)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(V, 'harness', 'Cargo.toml')):
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def forget_stale(target, out):
    """cargo goes by modification times, which say nothing when a file was put back or exchanged: when the
    sources differ from those of the last build here, its record of the two crates is removed"""
    want, stamp = source_hash(), os.path.join(target, 'sources.sha256')
    have = open(stamp).read() if os.path.exists(stamp) else ''
    if have != want:
        fp = os.path.join(target, out, '.fingerprint')
        for d in (os.listdir(fp) if os.path.isdir(fp) else []):
            if d.startswith(('tmi-', 'sweep-')):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    return stamp, want


def build(cfg):
    """returns (path of the binary or None, log)"""
    c = CONFIGS[cfg]
    e = env()
    e['RUSTFLAGS'] = c['flags']
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 't-' + cfg)
    cmd = ['cargo', 'build', '--release', '--offline', '--locked', '--features', ','.join(c['features'])]
    out = 'release'
    if c.get('asan'):
        e['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
        cmd += ['--target', 'x86_64-unknown-linux-gnu']
        out = 'x86_64-unknown-linux-gnu/release'
    stamp, want = forget_stale(e['CARGO_TARGET_DIR'], out)
    try:
        p = subprocess.run(cmd, cwd=os.path.join(V, 'harness'), env=e, capture_output=True, text=True, timeout=420)
    except subprocess.TimeoutExpired:
        return None, 'cargo build timed out'
    b = os.path.join(WORK, 't-' + cfg, out, 'sweep')
    if p.returncode != 0 or not os.path.exists(b):
        return None, p.stderr[-3000:]
    with open(stamp, 'w') as f:
        f.write(want)
    return b, ''


def dictionary(repo=REPO):
    """every string, char, byte-string and number literal in the source under test"""
    sys.path.insert(0, os.path.join(V, 'vx'))
    from rustlex import lex
    words, nums = set(), set()
    for root, _, files in os.walk(os.path.join(repo, 'src')):
        for fn in sorted(files):
            if not fn.endswith('.rs'):
                continue
            try:
                toks = lex(open(os.path.join(root, fn)).read())
            except Exception:
                continue
            for t in toks:
                s = t.t
                if t.k == 'str' or s.startswith(('"', 'b"', 'r"', 'r#', "b'", "'")) and len(s) >= 3:
                    m = re.match(r"^b?r?#*[\"'](.*)[\"']#*$", s, re.S)
                    if not m:
                        continue
                    body = m.group(1)
                    if not s.lstrip('b').startswith('r'):
                        try:
                            body = re.sub(r'\\\n\s*', '', body)
                            body = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda q: chr(int(q.group(1), 16)), body)
                            body = re.sub(r'\\x([0-9a-fA-F]{2})', lambda q: chr(int(q.group(1), 16)), body)
                            body = re.sub(r'\\(.)', lambda q: {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(q.group(1), q.group(1)), body)
                        except ValueError:
                            continue
                    if 0 < len(body) < 5000:
                        words.add(body)
                elif re.match(r'^[0-9]', s):
                    q = re.sub(r'_|(u|i)(8|16|32|64|128|size)$', '', s)
                    try:
                        n = int(q, 0)
                        if n < 2**100:
                            nums.add(n)
                    except ValueError:
                        pass
    sep = '\x1e'
    return sep.join(['w' + w for w in sorted(words) if sep not in w] + ['n%d' % n for n in sorted(nums)])


class Result:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.enumerated = 0
        self.samples = []
        self.bad = None          # dict(input, why, config)
        self.problems = []
        self.configs = []
        self.wall = 0


def run_config(prop, cfg, binary, seed, ms, parts, res, lock):
    d = os.path.join(WORK, 'dict.txt')
    procs = []
    e = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1')
    for k in range(parts):
        st = os.path.join(WORK, f'state-{prop}-{cfg}-{k}')
        p = subprocess.Popen([binary, '--prop', prop, '--seed', str(seed), '--part', str(k), '--parts', str(parts),
                              '--ms', str(ms), '--dict', d, '--state', st], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        procs.append((p, st, [0, time.time()]))

    def counter(st):
        try:
            with open(st, 'rb') as f:
                return int.from_bytes(f.read(8), 'little')
        except OSError:
            return 0

    def last_input(st):
        try:
            with open(st, 'rb') as f:
                h = f.read(16)
                n = int.from_bytes(h[8:16], 'little')
                return f.read(n).decode('utf-8', 'replace')
        except OSError:
            return ''
    live = list(procs)
    outs = {}
    readers = []
    for p, st, _ in procs:
        t = threading.Thread(target=lambda p=p: outs.__setitem__(p.pid, p.communicate()))
        t.start()
        readers.append(t)
    t0 = time.time()
    while live:
        time.sleep(0.05)
        for item in list(live):
            p, st, prog = item
            if p.poll() is not None:
                live.remove(item)
                continue
            c = counter(st)
            if c != prog[0]:
                prog[0], prog[1] = c, time.time()
            elif time.time() - prog[1] > 25:
                inp = last_input(st)
                p.kill()
                with lock:
                    if res.bad is None:
                        res.bad = dict(input=inp, why='the call does not return (no progress for 25 s)', config=cfg)
        if time.time() - t0 > ms / 1000 + 240:
            for p, _, _ in live:
                p.kill()
            with lock:
                res.problems.append(f'{cfg}: sweep did not finish in time')
            break
    for t in readers:
        t.join()
    for p, st, _ in procs:
        out = outs[p.pid][0].decode('utf-8', 'replace')
        try:
            j = json.loads(out.strip().split('\n')[-1]) if out.strip() else None
        except ValueError:
            j = None
        with lock:
            if j is None:
                if p.returncode is not None and p.returncode < 0 and p.returncode not in (-9, -15):
                    if res.bad is None:
                        res.bad = dict(input=last_input(st), why=f'the process was killed by signal {-p.returncode}', config=cfg)
                elif p.returncode != -9:
                    res.problems.append(f'{cfg}: sweep ended with {p.returncode}: ' + outs[p.pid][1].decode('utf-8', 'replace')[-300:])
                continue
            res.evaluations += j['evaluations']
            res.nontrivial += j['distinct_nontrivial']
            res.enumerated += j['enumerated']
            if len(res.samples) < 4:
                res.samples += j['samples'][:2]
            if 'bad' in j and res.bad is None:
                res.bad = dict(input=j['bad'], why=j.get('why', ''), config=cfg)
        try:
            os.unlink(st)
        except OSError:
            pass


def sweep(prop, configs, binaries, seed, ms, parts=8):
    res = Result()
    lock = threading.Lock()
    t = time.time()
    for c in configs:
        if binaries.get(c) is None:
            continue
        run_config(prop, c, binaries[c], seed, ms, parts, res, lock)
        res.configs.append(c)
        if res.bad:
            break
    res.wall = time.time() - t
    return res


def confirm(prop, binary, text):
    """replay one input: True if it still fails"""
    path = os.path.join(WORK, f'confirm-{prop}')
    with open(path, 'w', newline='') as f:
        f.write(text)
    try:
        p = subprocess.run([binary, '--prop', prop, '--replay', path], capture_output=True, timeout=60,
                           env=dict(os.environ, ASAN_OPTIONS='abort_on_error=1:detect_leaks=0'))
        return p.returncode != 0
    except subprocess.TimeoutExpired:
        return True
    finally:
        os.unlink(path)

"""Kani on the leaf functions whose contracts the Verus proof assumes (unsafe code and vendor intrinsics).

The crate compiled by Kani includes /repo's own files (`#[path]`); Array, which is private to tags.rs, is copied
out of it item by item on every run.  eq/fill/movemask: all inputs.  loads: all contents, lengths and offsets of a
buffer of 80 (SSE2) or 160 (AVX2) bytes.  Array: the stated numbers of pushes.  Labelled bounded, not counted as proved
by Verus."""
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vx'))
from rustlex import File  # noqa

WORK = os.path.join(V, 'work')
WHAT = {
    'load_unaligned': 'Vector::load_unaligned', 'load_aligned': 'Vector::load_aligned',
    'load_unaligned_remainder': 'Vector::load_unaligned_remainder', 'fill_eq_movemask': 'Vector::{fill, eq, movemask}',
    'array_small': 'Array: up to 6 pushes, capacity 3', 'array_fits': 'Array: 4 pushes, capacity 6',
    'array_full': 'Array: 128 pushes, capacity 128', 'array_over': 'Array: 131 pushes, capacity 128',
}


class R:
    def __init__(self):
        self.obligations = self.discharged = 0
        self.failed, self.undecided, self.assumed, self.cmds, self.notes = [], [], [], [], []
        self.bounded = []


def array_source(repo):
    f = File(open(os.path.join(repo, 'src/irc/tags.rs')).read())
    out = []
    for it in f.items:
        if it.kind in ('struct', 'impl') and re.match(r'Array\b', it.name or ''):
            out.append(f.src[it.start:it.end])
    return '\n'.join(out)


def run(tier, repo='/repo', timeout=400):
    r = R()
    d = os.path.join(WORK, f'kani-{os.getpid()}')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    try:
        shutil.copy(os.path.join(V, 'kani/Cargo.toml'), d)
        lib = open(os.path.join(V, 'kani/src/lib.rs')).read().replace('/repo/', repo.rstrip('/') + '/')
        try:
            arr = array_source(repo)
        except Exception as e:
            arr = ''
            r.undecided.append(f'kani: Array could not be extracted: {e}')
        if arr:
            lib += '\npub mod array {\n' + arr + '\n' + open(os.path.join(V, 'kani/array_proofs.rs')).read() + '\n}\n'
        open(os.path.join(d, 'src/lib.rs'), 'w').write(lib)
        e = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=os.path.join(d, 'target'))
        for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
            e.pop(k, None)
        cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '8']
        r.cmds.append(' '.join(cmd))
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            r.undecided.append(f'kani did not finish within {timeout} s')
            return r
        text = p.stdout + p.stderr
        who, msgs, res = {}, {}, {}
        cur = None
        for l in p.stdout.split('\n'):
            m = re.match(r'Thread (\d+): Checking harness (\S+?)\.\.\.', l)
            if m:
                who[m.group(1)] = m.group(2)
                continue
            m = re.match(r'Thread (\d+):', l)
            if m:
                cur = who.get(m.group(1))
                continue
            if cur is None:
                continue
            m = re.search(r'\*\* (\d+) of (\d+) failed', l)
            if m:
                res[cur] = dict(total=int(m.group(2)), failed=int(m.group(1)))
            m = re.search(r'Failed Checks: (.*)', l)
            if m:
                msgs.setdefault(cur, []).append(m.group(1))
            m = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', l)
            if m and m.group(1) != m.group(2) and cur:
                res.setdefault(cur, {})['vacuous'] = True
            m = re.search(r'VERIFICATION:- (\w+)', l)
            if m:
                res.setdefault(cur, {})['ok'] = m.group(1) == 'SUCCESSFUL'
        if not res:
            r.undecided.append('kani: ' + text[-400:].replace('\n', ' | '))
            return r
        for h, q in sorted(res.items()):
            name = h.split('::')[-1]
            fn = h.replace('proofs::', '') + ' (' + WHAT.get(name, name) + ')'
            n = q.get('total', 1)
            r.obligations += n
            bad = msgs.get(h, [])
            if q.get('vacuous'):
                r.undecided.append(f'kani: {fn}: harness not satisfiable')
            if q.get('ok'):
                r.discharged += n
                r.bounded.append(f'{fn}: {n} checks')
            elif any('unwinding assertion' in b or 'not currently supported' in b for b in bad) or not bad:
                r.undecided.append(f'kani: {fn}: {bad}')
            else:
                r.failed.append({'unit': 'kani', 'fn': fn, 'message': '; '.join(bad), 'text': '', 'line': 0})
        r.notes.append('kani (bounded): ' + '; '.join(r.bounded))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


run.thorough_only = False

if __name__ == '__main__':
    import time
    t = time.time()
    r = run('quick')
    print(r.obligations, r.discharged, r.failed, r.undecided, r.notes, round(time.time() - t, 1))

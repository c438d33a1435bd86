"""Run Verus on an extracted unit and sort its answers."""
import json
import os
import re
import signal
import subprocess
import time

OBLIGATION = re.compile(
    r'^(postcondition not satisfied|precondition not satisfied|invariant not satisfied|loop invariant not satisfied|'
    r'assertion failed|assert_by_contradiction|assertion not satisfied|possible arithmetic (under|over)flow|possible division by zero|'
    r'possible bit shift|decreases not satisfied|recursive (call|function).*decreases|'
    r'could not prove termination|unable to prove|failed (pre|post)condition|cannot show|'
    r'constructed value may fail to meet|requires not satisfied|ensures not satisfied|assumption|'
    r'possible index out|index out of bounds|cannot prove|.*postcondition.*not satisfied|.*precondition.*not satisfied|'
    r'.*might not terminate|bitvector assertion not satisfied|unreached|match arm may be reachable)')
UNDECIDED = re.compile(r'(rlimit|resource limit|Resource limit|timeout|timed out|canceled|incomplete)')
NOISE = re.compile(r'(aborting due to|\d+ warnings? emitted|could not compile|Some errors have detailed)')


class Outcome:
    def __init__(self):
        self.unit = ''
        self.cmd = ''
        self.ok = False
        self.broken = []         # messages that are not answers about an obligation
        self.failed = []         # dicts: fn, message, line, text, note
        self.undecided = []      # dicts: fn, message
        self.functions = []      # dicts: name, mode, ms, rlimit, success
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.path = ''
        self.raw = ''


def run(unit, path, modules=None, multiple=4, threads=4, rlimit=None, timeout=330, extra=()):
    """unit: extract.Unit already built; path: where to write the generated file"""
    o = Outcome()
    o.path = path
    open(path, 'w').write(unit.text)
    cmd = ['verus', os.path.basename(path), '--triggers-mode', 'silent', '--output-json', '--time-expanded',
           '--error-format=json', '--multiple-errors', str(multiple), '--num-threads', str(threads)]
    for m in modules or []:
        cmd += ['--verify-root'] if m == '' else ['--verify-only-module', m]
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    cmd += list(extra)
    o.cmd = ' '.join(cmd)
    t = time.time()
    try:
        with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True) as c:
            try:
                out, err = c.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                # (with the solvers it started; what it has reported so far stands)
                os.killpg(c.pid, signal.SIGKILL)
                out, err = c.communicate()
                o.undecided.append({'fn': None, 'message': f'verus did not finish within {timeout:.0f} s', 'line': 0})
        p = subprocess.CompletedProcess(cmd, c.returncode, out, err)
    except OSError as e:
        o.broken.append(f'verus does not run: {e}')
        return o
    o.wall = time.time() - t
    o.raw = p.stderr
    lines = unit.text.split('\n')
    seen = set()
    for l in p.stderr.split('\n'):
        if not l.strip():
            continue
        try:
            d = json.loads(l)
        except ValueError:
            if 'panicked' in l or 'error' in l.lower():
                o.broken.append(l[:300])
            continue
        if d.get('level') != 'error' and not (d.get('level') or '').startswith('error'):
            continue
        msg = d['message']
        if NOISE.search(msg):
            continue
        spans = [s for s in d.get('spans', []) if s['file_name'].endswith(os.path.basename(path))]
        prim = [s for s in spans if s['is_primary']] or spans
        fns = []
        for s in prim + spans:
            k = unit.fn_at(s['line_start'])
            if k and k not in fns:
                fns.append(k)
        line = prim[0]['line_start'] if prim else 0
        # the obligation belongs to the function being verified: for a failed precondition that is
        # the caller (primary span), for a failed postcondition the function whose clause it is
        text = ' '.join(x.strip() for x in lines[line - 1:line + 1]) if line else ''
        e = {'fn': fns[0] if fns else None, 'fns': fns, 'message': msg, 'line': line, 'text': text[:300],
             'related': [{'line': s['line_start'], 'label': s['label'], 'text': lines[s['line_start'] - 1].strip()[:1500]} for s in spans]}
        key = (e['fn'], msg, line)
        if key in seen:
            continue
        seen.add(key)
        if UNDECIDED.search(msg):
            o.undecided.append(e)
        elif OBLIGATION.search(msg):
            o.failed.append(e)
        else:
            o.broken.append(e)
    try:
        j = json.loads(p.stdout)
        vr = j['verification-results']
        o.verified = vr.get('verified', 0)
        o.errors = vr.get('errors', 0)
        for m in j['times-ms'].get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                o.functions.append({'name': f['function'].split('::', 1)[-1], 'mode': f.get('mode:', f.get('mode', '')),
                                    'ms': f['time-micros'] / 1000, 'rlimit': f['rlimit'], 'success': f['success']})
                o.smt_ms += f['time-micros'] / 1000
        o.ok = bool(vr.get('success')) and not o.broken and not o.failed and not o.undecided and o.verified > 0
        if vr.get('encountered-vir-error') and not o.broken and not o.failed:
            o.broken.append('verus: VIR error')
    except (ValueError, KeyError) as e:
        if o.undecided:
            return o
        o.broken.append(f'verus gave no result ({e}); rc={p.returncode}')
    return o


def merge(o, o2):
    """what failed in o but is proved in o2 (the same text, other solver settings) is proved"""
    if o2.broken:
        return
    if not o2.functions:
        have = {(e['fn'], e['message'], str(e['related'])) for e in o.failed}
        o.failed += [e for e in o2.failed if e['fn'] in {e['fn'] for e in o.failed} and (e['fn'], e['message'], str(e['related'])) not in have]
        return
    bad = lambda x: {f['name'] for f in x.functions if not f['success']}
    keys = lambda x: {e['fn'] for e in x.failed + x.undecided}
    k1, k2 = keys(o), keys(o2)
    if None in k1 | k2 or not k2 <= k1:
        return
    if k2 and bad(o) & bad(o2) == set():
        k2 = set()
    o.failed = [e for e in o.failed if e['fn'] in k2]
    # (the first attempt reports one failed obligation per function)
    have = {(e['fn'], e['message'], str(e['related'])) for e in o.failed}
    o.failed += [e for e in o2.failed if e['fn'] in k2 and (e['fn'], e['message'], str(e['related'])) not in have]
    o.undecided = [e for e in o.undecided if e['fn'] in k2]
    o.again = getattr(o, 'again', 0) + 1
    both = bad(o) & bad(o2)
    for f in o.functions:
        if f['name'] not in both and not f['success']:
            f['success'] = True
    if not o.failed and not o.undecided:
        o.verified, o.errors, o.ok = o.verified + o.errors, 0, True
    o.smt_ms += o2.smt_ms
    o.wall += o2.wall


TRUST = [
    (re.compile(r'assume_specification(?:\s*<[^\[]*>)?\s*\[\s*([^\]]+)\]'), 'assumed contract on dependency: '),
    (re.compile(r'\badmit\s*\(\s*\)'), 'admit()'),
    (re.compile(r'\bassume\s*\(([^)]*)'), 'assume: '),
    (re.compile(r'external_type_specification\)?\]?[\s\S]{0,200}?struct\s+(\w+)'), 'type used opaquely: '),
    (re.compile(r'(?:external_body|axiom)[\s\S]{0,120}?\bfn\s+(\w+)'), 'body not verified (contract assumed): '),
    (re.compile(r'\bbroadcast axiom fn\s+(\w+)'), 'axiom: '),
    (re.compile(r'\buninterp\s+spec\s+fn\s+(\w+)'), 'uninterpreted function: '),
    (re.compile(r'verifier::external\)\]|verifier::external\]'), 'item ignored by the verifier'),
]


def trusted_scan(text):
    """mechanical list of everything in the generated file that is assumed rather than proved"""
    text = re.sub(r'//[^\n]*', '', text)
    out = {}
    for rx, what in TRUST:
        for m in rx.finditer(text):
            k = what + (re.sub(r'\s+', ' ', m.group(1)).strip() if m.groups() and m.group(1) else '')
            out[k] = out.get(k, 0) + 1
    return [k if n == 1 else f'{k} (x{n})' for k, n in sorted(out.items())]

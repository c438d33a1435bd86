#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree."""
import hashlib
import json
import os
import re
import sys
import threading
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vx'))
import plan  # noqa
import sweep as SW  # noqa
import verify as VF  # noqa

WORK = os.path.join(V, 'work')


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def decide_unit(name, modules, retries=6, threads=4, probe=False, rlimit=None):
    """extract + verify; a function Verus cannot take at all is set aside (and reported), the rest still proved"""
    aside = {}
    build = plan.UNITS[name]
    o = None
    u = None
    for _ in range(retries):
        try:
            u = build()
            for k in aside:
                u.force_external.add(k)
            u.probe = probe
            u.build()
        except Exception as e:
            o = VF.Outcome()
            o.broken = [f'extraction failed: {type(e).__name__}: {e}']
            return u, o, aside
        path = os.path.join(WORK, f'u_{name}_{os.getpid()}{"_probe" if probe else ""}.rs')
        o = VF.run(u, path, modules, multiple=50 if probe else 1, threads=threads, rlimit=rlimit, extra=plan.VERUS_ARGS.get(name, ()), timeout=1500 if probe else 330)
        bad = [b for b in o.broken if isinstance(b, dict) and b.get('fn') and b['fn'] not in aside and b['fn'] in u.can_externalize]
        if not o.broken or not bad:
            break
        for b in bad:
            aside[b['fn']] = b['message']
    o.unit = name
    try:
        os.unlink(path)
    except OSError:
        pass
    return u, o, aside


def ask_again(name, modules, u, o, deadline, threads=4):
    """a proof found under other solver settings is a proof: obligations are asked for again before they count as failed"""
    base = list(plan.VERUS_ARGS.get(name, ()))
    path = os.path.join(WORK, f'u_{name}_{os.getpid()}_again.rs')
    for alt in (base + ['--smt-option', 'smt.random_seed=7'], [] if base else ['--smt-option', 'smt.phase_selection=1']):
        left = deadline - time.time()
        if o.broken or not (o.failed or o.undecided) or left < 20:
            break
        VF.merge(o, VF.run(u, path, modules, threads=threads, rlimit=20, timeout=left, extra=alt))
    try:
        os.unlink(path)
    except OSError:
        pass


def clause_props(e):
    """the properties a failed contract clause is labelled with, if it is"""
    for r in e.get('related', []):
        m = re.search(r'/\*@props ([P0-9 ]+)\*/', r['text'])
        if m and (re.search('(post|pre)condition', r['label'] or '') or e['message'].startswith('assertion failed')):
            return m.group(1).split()
    return None


def known_findings():
    path = os.path.join(V, 'known_findings.txt')
    out = []
    for l in open(path) if os.path.exists(path) else []:
        m = re.match(r'known:\s+property=(\S+)\s+input=(\S+)\s+(.*)', l)
        if m:
            out.append((m.group(1), bytes.fromhex(m.group(2)).decode(), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    P = plan.PROPS[prop]
    thorough = tier == 'thorough'

    # ---- the proof, and the harness build, side by side
    outcomes = {}
    probes = {}
    binaries = {}
    logs = {}

    def prove(name, mods):
        outcomes[name] = decide_unit(name, mods)

    def probe(name, mods):
        probes[name] = decide_unit(name, mods, probe=True)

    def build():
        open(os.path.join(WORK, 'dict.txt'), 'w').write(SW.dictionary())
        for c in P['sweep']:
            if SW.usable(c):
                binaries[c], logs[c] = SW.build(c)

    th = [threading.Thread(target=prove, args=(n, m)) for n, m, _ in P['units']]
    th.append(threading.Thread(target=build))
    if thorough:
        th += [threading.Thread(target=probe, args=(n, m)) for n, m, _ in P['units']]
    extra = {}
    for name, fn in P.get('extra', {}).items():
        if thorough or not fn.thorough_only:
            th.append(threading.Thread(target=lambda name=name, fn=fn: extra.__setitem__(name, fn(tier))))
    for t in th:
        t.start()
    for t in th:
        t.join()

    # what is not proved at the first attempt: if the search finds an input at which the code fails, that is that; if it does not,
    # the solver is asked again
    early = None
    if any((o.failed or o.undecided) and not o.broken for _, o, _ in outcomes.values()):
        early = SW.sweep(prop, [c for c in P['sweep'] if SW.usable(c)], binaries, seed, P.get('ms', 5000))
        if early.bad is None:
            th = [threading.Thread(target=ask_again, args=(n, m, *outcomes[n][:2], t0 + (1500 if thorough else 450))) for n, m, _ in P['units'] if outcomes[n][0] is not None]
            for t in th:
                t.start()
            for t in th:
                t.join()

    failed, undecided, notes, fns_under, assumed, rewrites, dropped = [], [], [], set(), [], {}, set()
    obligations = discharged = 0
    smt = 0.0
    timing = []
    cmds = []
    for name, mods, rx in P['units']:
        u, o, aside = outcomes[name]
        rxc = re.compile(rx)
        smt += o.smt_ms
        if o.cmd:
            cmds.append(o.cmd)
        mine = lambda k: k is None or rxc.fullmatch(k)
        # some properties are decided by clauses labelled with them alone, although they need the functions to be verified
        mine_e = lambda e: (mine(e['fn']) and not P.get('labelled')) if clause_props(e) is None else prop in clause_props(e)
        # a proof script that no longer fits its function, or a call to a function that has no contract yet, means
        # that the proof was not redone, not that it failed
        stale = {re.split(r': |#', w[1])[0] for w in u.lost} if u is not None else set()
        if u is not None:
            stale |= {k for k, v in u.loop_kinds.items() if plan.KNOWN_LOOPS.get(name, {}).get(k, v) != v}
        new = [k for k in u.unannotated if k not in plan.KNOWN_PLAIN] if u is not None else []
        for e in o.failed:
            if mine_e(e):
                calls = [k for k in new if e['fn'] and u.calls(e['fn'], k)]
                if e['fn'] in stale or e['fn'] in new or e['fn'] in u.opaque or calls:
                    undecided.append(f"{name}: {e['fn']}: {e['message']} [{e['text'][:100]}]: " +
                                     ('calls ' + ', '.join(calls) + ', which has no contract' if calls else 'it contains a closure without a contract' if e['fn'] in u.opaque else 'the proof script does not fit the changed function'))
                else:
                    failed.append(dict(e, unit=name))
        for e in o.undecided:
            if mine(e['fn']):
                undecided.append(f"{name}: {e['fn']}: {e['message']}")
        for k, why in aside.items():
            if mine(k):
                undecided.append(f'{name}: {k}: outside the verifier: {why}')
        for b in o.broken:
            undecided.append(f'{name}: ' + (b if isinstance(b, str) else f"{b['fn']}: {b['message']} [{b['text']}]"))
        if u is not None:
            for w in u.lost:
                if True:
                    undecided.append(f'{name}: the annotation has lost its place: {w[0]} {w[1]}')
            for k in u.used_specs:
                if mine(k):
                    fns_under.add(k)
            assumed += VF.trusted_scan(u.text)
            for k, v in u.rewrite_count.items():
                rewrites[k] = max(v, rewrites.get(k, 0))
            dropped |= set(u.dropped)
            new = [k for k in u.unannotated if mine(k) and k not in plan.KNOWN_PLAIN]
            if new:
                notes.append(f'{name}: functions without a contract: ' + ', '.join(sorted(new)))
                if P.get('labelled'):
                    undecided.append(f'{name}: nothing is stated in the new functions ' + ', '.join(sorted(new)))
        obligations += max(o.verified + o.errors, len(o.functions))
        discharged += o.verified
        if not o.broken:
            timing += [(f['ms'], f"{name}:{f['name']}") for f in o.functions]
    bounded = {}
    for name, r in extra.items():
        bounded[name] = {'checks': r.obligations, 'held': r.discharged, 'what': r.bounded}
        failed += r.failed
        undecided += r.undecided
        assumed += r.assumed
        cmds += r.cmds
        notes += r.notes
    decided = not failed and not undecided and obligations > 0 and discharged == obligations
    log(f'{prop}: {discharged}/{obligations} obligations, failed {len(failed)}, undecided {len(undecided)} [{time.time() - t0:.1f} s]')
    for e in failed:
        log('  failed obligation:', e['unit'], e['fn'], '|', e['message'], '|', e['text'][:160])
    for w in undecided:
        log('  undecided:', w[:300])

    # ---- vacuity: with `assert(false)` at every entry and in every loop, every one of them must fail
    vac = {}
    for name, (u, o, aside) in probes.items():
        mods = [m for n, m, _ in P['units'] if n == name][0]
        hit = {r['line'] for e in o.failed for r in e['related']} | {e['line'] for e in o.failed}
        want = [(l, k) for l, k in u.probe_lines() if k and k.split('|')[0] in mods and k not in aside]
        missing = sorted({k for l, k in want if l not in hit})
        vac[name] = {'probes': len(want), 'reachable': len([1 for l, k in want if l in hit])}
        if o.broken:
            notes.append(f'{name}: vacuity probe did not run: {o.broken[:2]}')
            continue
        if missing:
            notes.append(f'{name}: entry not shown reachable (vacuous contract?): {missing}')
            undecided.append(f'{name}: vacuity probe: {missing}')

    # ---- the search on the real code
    for c, b in list(binaries.items()):
        if b is None:
            notes.append(f'sweep harness does not build for {c}: {logs[c][-600:]}')
    ms = P.get('ms', 5000)
    if thorough:
        ms = P.get('ms_thorough', 60000)
    if not decided:
        ms = max(ms, P.get('ms_extended', 40000))
    res = early if early is not None and early.bad is not None else SW.sweep(prop, [c for c in P['sweep'] if SW.usable(c)], binaries, seed, ms)
    log(f'{prop}: sweep {res.evaluations} inputs in {res.configs} [{time.time() - t0:.1f} s]', res.problems)

    findings = [k for k in known_findings() if k[0] == prop]
    rc = 0
    violations = 0
    for _, inp, what in findings:
        b = [x for x in binaries.values() if x]
        if b and SW.confirm(prop, b[0], inp):
            print(f'KNOWN-FINDING: property={prop} {what}')
    rdir = os.path.join(V, 'replays')
    if res.bad is not None and not any(res.bad['input'] == i for _, i, _ in findings):
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(res.bad['input'].encode()).hexdigest()[:12]
        path = os.path.join(rdir, f'{prop}-{h}.json')
        rec = {'property': prop, 'configuration': res.bad['config'], 'input': res.bad['input'],
               'input_hex': res.bad['input'].encode('utf-8').hex(), 'why': res.bad['why'],
               'replay': f"printf the bytes of input_hex to a file F, then: {binaries[res.bad['config']]} --prop {prop} --replay F",
               'failed_obligations': failed[:20], 'undecided': undecided[:20]}
        json.dump(rec, open(path, 'w'), indent=1)
        log('  failing input:', repr(res.bad['input'])[:400], '|', res.bad['why'][:600])
        print(f'VIOLATION property={prop} replay={path}')
        rc, violations = 1, 1
    elif failed:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-obligation.json')
        json.dump({'property': prop, 'failed_obligations': failed, 'undecided': undecided, 'verifier': cmds,
                   'searched': res.evaluations, 'note': 'no failing input found by the search on the real code'}, open(path, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        rc, violations = 1, 1
    elif undecided:
        print(f'UNDECIDED property={prop}: {len(undecided)} obligations not decided by the verifier (see evidence); '
              f'bounded search of {res.evaluations} inputs on the real code found no violation')

    timing.sort(reverse=True)
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': '; '.join(cmds), 'trusted_base': sorted(set(assumed)),
            'functions_under_contract': sorted(fns_under),
            'backend': 'Verus 0.2026.09.13 (Z3 4.12.5 bundled)' + (' (and ' + ', '.join(extra) + ', bounded, for the functions whose contract is assumed)' if extra else ''),
            'solver_ms': round(smt), 'slowest': [f'{n} {m:.0f} ms' for m, n in timing[:6]],
            'failed_obligations': [f"{e['unit']}: {e['fn']}: {e['message']}" for e in failed],
            'undecided': undecided, 'bounded_stand_in_used': bool(undecided),
            'rewrites_applied': rewrites, 'items_not_extracted': sorted(dropped),
            'vacuity_probe': vac,
            'bounded_checks_of_assumed_contracts': bounded,
            'bounded_search': {'evaluations': res.evaluations, 'distinct_nontrivial': res.nontrivial, 'enumerated': res.enumerated,
                               'configurations': res.configs, 'ms_per_configuration': ms, 'samples': res.samples[:4], 'problems': res.problems},
            'notes': notes,
        },
        'assumptions': plan.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': violations,
    }
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    if rc == 0:
        print(f'{prop}: ' + ('proved' if decided else 'not fully decided') + f' ({discharged}/{obligations} obligations), {res.evaluations} inputs searched')
    sys.exit(rc)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        # a fault of the machinery is not evidence of a violation
        print('UNDECIDED: the check itself failed')
        sys.exit(0)

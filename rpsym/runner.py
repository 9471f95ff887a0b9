"""Runs all cases of a property in parallel, validates witnesses on the real
code, writes evidence, prints the verdict."""
import argparse
import json
import multiprocessing as mp
import os
import re
import sys
import threading
import time
from . import engine, sym
from .engine import CaseRun, ReplayServer


def _work(args):
    prop, cs, findings, tier, seed, q = args
    t0 = time.time()
    for k in sym.STATS:
        sym.STATS[k] = 0
    r = CaseRun(prop, cs, findings, seed=seed, tier=tier)
    def send(more):
        q.put({
            'case': cs.name, 'violations': r.violations, 'unknown': list(r.unknown),
            'functions': sorted(r.functions), 'contracts': sorted(r.contracts), 'summaries': sorted(r.summaries),
            'domain': r.domain, 'counts': r.counts, 'proved': r.proved,
            'paths': r.paths, 'feasible': r.feasible, 'witnesses': r.witnesses[:12],
            'hits': r.hits, 'stats': dict(sym.STATS), 'wall': time.time() - t0,
            'notes': sorted(set(r.notes)), 'more': more,
        })
    try:
        r.execute(early=lambda: send(True))
    except BaseException as e:       # engine failure: never a pass
        import traceback
        r.unknown.append(('engine', traceback.format_exc()[-1500:]))
        r.paths = getattr(r, 'paths', 0)
        r.feasible = getattr(r, 'feasible', 0)
    send(False)


def run_cases(prop, cases, findings, tier, seed, jobs, limit, verbose, deadline=None):
    """own scheduler: one process per case with a wall limit"""
    ctxm = mp.get_context('fork')
    pend = list(cases)
    live = []
    part = {}                           # without the runs after other calls
    results = []
    t00 = time.time()
    probe = None
    found = []
    while pend or live:
        if probe is None and time.time() - t00 > 25:
            # the encoder takes long: meanwhile replay the default point of the
            # unfinished cases on the real code
            left = [c for _, _, c, _ in live] + list(pend)
            probe = threading.Thread(target=_probe, args=(prop, left, found), daemon=True)
            probe.start()
        if found:
            deadline = min(deadline or 1e18, time.time() + 20)
            results.extend(found)
            found = _Full()
        while pend and len(live) < jobs:
            cs = pend.pop(0)
            if deadline and time.time() > deadline:
                results.append(_dead(cs, 'overall time limit', time.time()))
                continue
            q = ctxm.SimpleQueue()
            p = ctxm.Process(target=_work, args=((prop, cs, findings, tier, seed, q),))
            p.start()
            live.append((p, q, cs, time.time()))
        time.sleep(0.01)
        nxt = []
        for p, q, cs, t0 in live:
            if not q.empty():
                r = q.get()
                if r['more']:
                    part[cs.name] = r, time.time()
                    nxt.append((p, q, cs, t0))
                    continue
                p.join()
                results.append(r)
                if r['violations']:          # decided: give the other cases a moment only
                    deadline = min(deadline or 1e18, time.time() + 20)
            elif not p.is_alive():
                if not q.empty():
                    nxt.append((p, q, cs, t0))
                    continue
                elif cs.name in part:
                    results.append(_cut(part[cs.name][0]))
                else:
                    results.append(_dead(cs, 'process ended (%s)' % p.exitcode, t0))
            elif time.time() - t0 > (cs.timeout or limit) or (deadline and time.time() > deadline) \
                    or cs.name in part and time.time() - part[cs.name][1] > 60:
                _killtree(p)
                results.append(_cut(part[cs.name][0]) if cs.name in part else _dead(cs, 'time limit', t0))
            else:
                nxt.append((p, q, cs, t0))
                continue
            if verbose:
                _show(results[-1])
        live = nxt
    return results


class _Full(list):
    def append(self, x): pass
    def __bool__(self): return False


def _probe(prop, cases, found):
    srv = ReplayServer(prop)
    for cs in cases:
        res = srv.ask(cs.name, {})
        if res is None:
            srv.close()
            srv = ReplayServer(prop)
        elif res['status'] in ('violation', 'raised'):
            r = _dead(cs, 'decided by a replay', time.time())
            r['unknown'] = []
            r['violations'] = [_defviol(cs.name, res)]
            found.append(r)
            break
    srv.close()


def _defviol(name, res):
    return {'case': name, 'label': res['label'], 'detail': res['detail'],
            'obligation': 'default point of the case', 'why': 'default point of the case, run on the real code',
            'inputs': res.get('used', {})}


def _killtree(p):
    import signal
    import subprocess
    try:
        subprocess.run(['pkill', '-9', '-P', str(p.pid)])
    except Exception:
        pass
    p.kill()
    p.join()


def _cut(r):
    r['unknown'].append(('history', 'calls after other calls: time limit'))
    return r


def _dead(cs, why, t0):
    return {'case': cs.name, 'violations': [], 'unknown': [('engine', why)], 'functions': [],
            'contracts': [], 'summaries': [], 'domain': {}, 'counts': {}, 'proved': 0, 'paths': 0,
            'feasible': 0, 'witnesses': [], 'hits': {}, 'stats': {}, 'wall': time.time() - t0,
            'notes': [], 'more': False}


def _show(r):
    print('  %-50s paths %d/%d proved %d %.1fs q=%d (%.1fs)%s%s' % (
        r['case'][:50], r['feasible'], r['paths'], r['proved'], r['wall'],
        r['stats'].get('queries', 0), r['stats'].get('solver_s', 0),
        ' VIOL' if r['violations'] else '', ' UNKNOWN' if r['unknown'] else ''), flush=True)
    for u in r['unknown']:
        print('      ?', u[0], '--', str(u[1])[:1500])
    for v in r['violations']:
        print('      !', v['label'], v['detail'], v['inputs'])
    for n in r['notes']:
        print('      .', n)


def probe_undecided(prop, results, cases, limit=60):
    """cases the encoder could not finish: replay points of their input domain
    (defaults) on the real code; reproduced failures are violations, a pass
    proves nothing and the case stays undecided"""
    out = []
    srv = None
    t0 = time.time()
    for r in results:
        if not r['unknown'] or r['violations'] or time.time() - t0 > limit:
            continue
        if srv is None:
            srv = ReplayServer(prop)
        res = srv.ask(r['case'], {})
        if res is None:
            srv.close()
            srv = None
            continue
        if res['status'] in ('violation', 'raised'):
            out.append(_defviol(r['case'], res))
    if srv:
        srv.close()
    return out


def validate(prop, results, verbose):
    """witness of every path, run on the real code: asserts hold and observed
    values agree with the encoding"""
    srv = None
    checked = mism = bad = 0
    viol = []
    msgs = []
    for r in results:
        for w in r['witnesses']:
            if srv is None:
                srv = ReplayServer(prop)
            res = srv.ask(r['case'], w['inputs'], w.get('again', False))
            if res is None:
                msgs.append('%s: no reply' % r['case'])
                srv.close()
                srv = None
                mism += 1
                continue
            if res['status'] in ('violation', 'raised'):
                viol.append({'case': r['case'], 'label': res['label'], 'detail': res['detail'],
                             'obligation': 'witness', 'why': 'solver witness of a path, run on the real code',
                             'inputs': w['inputs'], 'again': w.get('again', False)})
                continue
            if res['status'] == 'badpoint':
                bad += 1
                continue
            checked += 1
            o1, o2 = w['obs'], res['observed']
            if len(o1) != len(o2):
                mism += 1
                msgs.append('%s: %d vs %d observations' % (r['case'], len(o1), len(o2)))
                continue
            scale = max([abs(y) for y in o2 if isinstance(y, float) and y == y] + [0.0])
            for i, (x, y) in enumerate(zip(o1, o2)):
                if x is None or y is None:
                    continue
                xs = x if isinstance(x, list) else [x]
                ys = y if isinstance(y, list) else [y]
                if len(xs) != len(ys):
                    if len(xs) == 2 and xs[1] == 0:
                        xs = xs[:1]
                    elif len(ys) == 2 and ys[1] == 0:
                        ys = ys[:1]
                if any(abs(a - b) > 1e-5 * max(abs(a), abs(b), 1e-9) + 1e-9 * scale * 1e-2
                       for a, b in zip(xs, ys)):
                    mism += 1
                    msgs.append('%s: observation %d encoded %r real %r at %r'
                                % (r['case'], i, x, y, w['inputs']))
                    break
    if srv:
        srv.close()
    return checked, mism, bad, viol, msgs


def main(prop, argv, here, load_props, load_findings):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=float, default=None)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cases = load_props(prop)
    if not cases:
        print('no cases for', prop)
        return 3
    findings = load_findings(prop)
    if a.replay:
        with open(a.replay) as fh:
            v = json.load(fh)
        srv = ReplayServer(prop)
        for w in v.get('before', []):
            srv.ask(*w)
        r = srv.ask(v['case'], v['inputs'], v.get('again', False))
        srv.close()
        print(json.dumps(r, indent=1))
        return 1 if r and r['status'] in ('violation', 'raised') else 0
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    if a.tier != 'thorough':
        cases = [c for c in cases if not c.thorough]
    limit = a.limit or (400 if a.tier == 'quick' else 3600)
    results = run_cases(prop, cases, findings, a.tier, seed, a.jobs, limit, a.v,
                        deadline=t0 + (450 if a.tier == 'quick' else 7200))
    viol = [v for r in results for v in r['violations']]
    unk = [(r['case'],) + tuple(u) for r in results for u in r['unknown']]
    checked, mism, bad, viol2, msgs = validate(prop, results, a.v)
    viol += viol2
    if unk and not viol:
        viol += probe_undecided(prop, results, cases)
    wall = time.time() - t0
    funcs = sorted({f for r in results for f in r['functions']})
    st = {}
    for r in results:
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
    counts = {}
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
    hits = {}
    for r in results:
        for k, v in r['hits'].items():
            hits.setdefault(k, []).extend(v)
    paths = sum(r['feasible'] for r in results)
    dom = {}
    for r in results:
        for k, v in r['domain'].items():
            k2 = re.sub(r'_\d+$', '_i', k)
            if k2 in dom:
                lo = [x for x in (dom[k2][0], v[0]) if x is not None]
                hi = [x for x in (dom[k2][1], v[1]) if x is not None]
                dom[k2] = [float(min(lo)) if len(lo) == 2 else None,
                           float(max(hi)) if len(hi) == 2 else None]
            else:
                dom[k2] = [None if x is None else float(x) for x in v]
    explanation = (
        'Symbolic execution of the current source of %d functions (%s) over exact reals; '
        '%d cases, %d feasible paths, %d obligations discharged by the solver, %d undecided. '
        '%d SMT queries (z3 %s, cvc5 as fallback), %.1f s solver time. '
        'Every path has a satisfying witness (vacuity guard), %d witnesses re-executed on the real '
        'package and compared with the encoding (%d mismatches).' % (
            len(funcs), ', '.join(funcs), len(results), paths,
            sum(r['proved'] for r in results), len(unk), st.get('queries', 0),
            engine.z3.get_version_string(), st.get('solver_s', 0.0), checked, mism))
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'functions_encoded': funcs,
            'bounds': dom,
            'cases': [{'case': r['case'], 'paths': r['feasible'], 'obligations': r['proved'],
                       'wall_s': round(r['wall'], 2)} for r in sorted(results, key=lambda r: r['case'])],
            'obligation_kinds': counts,
            'queries': st.get('queries', 0), 'unsat': st.get('unsat', 0), 'sat': st.get('sat', 0),
            'unknown_verdicts': st.get('unknown', 0),
            'solver_s': round(st.get('solver_s', 0.0), 2),
            'contracts': sorted({c for r in results for c in r['contracts']}),
            'model_functions_taken_as_uninterpreted': sorted({c for r in results for c in r['summaries']}),
            'witnesses_validated': checked, 'witness_mismatches': mism,
            'undecided': [list(map(str, u))[:3] for u in unk][:20],
            'known_findings_confirmed': sorted(hits),
        },
        'assumptions': [
            'float64 arithmetic is modelled as exact real arithmetic: equalities are up to rounding',
            'numpy/math functions are modelled by their mathematical definitions (algebraic functions exactly; '
            'exp/log/non-integer powers as opaque functions with sign, monotonicity and congruence axioms)',
            'inputs range over the intervals listed under bounds; arrays over the stated sizes'],
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if not a.no_evidence and not a.case:
        os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
        with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for f in sorted(findings):
        if f in hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, findings[f]['what']))
    if viol:
        os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
        for i, v in enumerate(viol[:5]):
            path = os.path.join(here, 'replays', '%s-%d.json' % (prop, i))
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('# %s: %s: %s (inputs %s)' % (v['case'], v['label'], v['detail'],
                                               json.dumps(v['inputs'])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for m in msgs:
        print('# encoding mismatch:', m)
    for u in unk:
        print('# UNDECIDED %s' % (u[:2],), str(u[2:])[:400])
    proved = sum(r['proved'] for r in results)
    if (unk or mism) and (not proved or mism > checked):
        print('INCONCLUSIVE property=%s: %d undecided obligations, %d encoding mismatches, %d proved'
              % (prop, len(unk), mism, proved))
        return 2
    if unk or mism:
        # the property held on everything that was explored; what was not is
        # listed above and in the evidence
        print('PARTIAL property=%s: %d obligations proved, %d undecided, %d encoding mismatches, %.1fs'
              % (prop, proved, len(unk), mism, wall))
        return 0
    print('OK property=%s: %d obligations over %d paths, %d functions, %d queries, %.1fs'
          % (prop, proved, paths, len(funcs), st.get('queries', 0), wall))
    return 0

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--serve] [--replay FILE] [--case NAME]"""
import importlib.util
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) and sys.prefix != '/opt/venv' and os.path.exists(VENV) \
        and not os.environ.get('RPSYM_NOEXEC'):
    os.environ['RPSYM_NOEXEC'] = '1'
    os.execv(VENV, [VENV, '-W', 'ignore'] + [os.path.abspath(__file__)] + sys.argv[1:])
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

import rpsym                                   # noqa: E402
from rpsym import harness                      # noqa: E402


def load_props(prop):
    d = os.path.join(HERE, 'props')
    sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            with open(os.path.join(d, f)) as fh:
                if ("'%s'" % prop) not in fh.read():
                    continue
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
    return harness.CASES.get(prop, [])


def load_findings(prop):
    """ids of recorded (not fixed) findings of this property"""
    out = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('{'):
                    e = json.loads(line)
                    if e.get('property') == prop and e.get('status') == 'open':
                        out[e['id']] = e
    return out


def serve(prop):
    cases = {c.name: c for c in load_props(prop)}
    fnd = load_findings(prop)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        rq = json.loads(line)
        r = harness.run_concrete(cases[rq['case']], rq['inputs'], findings=fnd, again=rq.get('again', False))
        out.write('@@' + json.dumps(r) + '\n')
        out.flush()


def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        import z3
        x = z3.Real('x')
        s = z3.Solver()
        s.add(x * x < 0)
        ok = str(s.check()) == 'unsat'
        n = {e['property'] for e in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
        miss = sorted(p for p in n if not load_props(p))
        print('solver', z3.get_version_string(), 'ok' if ok else 'BROKEN', 'properties', len(n), 'without cases', miss)
        return 0 if ok and not miss else 1
    if '--serve' in sys.argv:
        return serve(prop)
    from rpsym import runner
    return runner.main(prop, sys.argv[2:], HERE, load_props, load_findings)


if __name__ == '__main__':
    sys.exit(main() or 0)

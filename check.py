#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only substr] [--jobs N]
Decides one property by symbolic execution of the real crate; see DESIGN.md."""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
from irsym import build, jobs as jobtab, pool   # noqa: E402
from irsym.ll import Program, demangle          # noqa: E402

ROOT = build.ROOT
EV = os.path.join(ROOT, 'evidence')


def tagprop(prop):
    """assertions that count: those of the property, or all"""
    return None if jobtab.PROPS[prop].get('all_tags') else prop


def run_symbolic(job, progs, prop, budget):
    from irsym.sym import Engine, Violation, Stop
    e = Engine(progs[job.cfg], tagprop(prop), max_steps=job.opt.get('max_steps', 200000))
    if job.opt.get('setup'):
        getattr(jobtab, job.opt['setup'])(e, job)
    e.page = job.opt.get('page', 4096)
    e.hang = bool(job.opt.get('hang'))
    e.deadline = time.time() + budget
    res = {'status': 'ok'}
    try:
        rs = e.run(job.h, args=list(job.args))
        res['ends'] = len(rs)
        res['witness'] = [e.witness(rs[k][0]) for k in sorted({0, len(rs) - 1})] if rs else []
    except Violation as v:
        res = {'status': 'violation', 'kind': v.kind, 'msg': v.msg, 'tape': v.tape, 'trace': v.trace}
    except Stop as s:
        res = {'status': 'stop', 'why': str(s)}
    res['stats'] = dict(e.stats, int_queries=e.ctx.n_int, bv_queries=e.ctx.n_bv)
    res['covers'] = e.covers
    res['funcs'] = [f for f in e.funcs_seen]
    return res


def known():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                out.append(dict(x.split('=', 1) for x in l[len('finding:'):].strip().split(' ; ')))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    o = ap.parse_args()
    t0 = time.time()
    prop = o.prop
    spec = jobtab.PROPS[prop]
    budget = spec.get('budget', 780) if o.tier == 'quick' else 6 * 3600
    deadline = t0 + budget
    os.makedirs(EV, exist_ok=True)
    evf = os.path.join(EV, prop + '.json')
    if os.path.exists(evf):
        os.remove(evf)
    if 'run' in spec:
        sys.exit(finish(o, spec, spec['run'](o, deadline), t0, evf))
    jl = spec['jobs'](o.tier)
    if o.only:
        jl = [j for j in jl if o.only in j.name]
    try:
        progs = {c: Program(build.ir(c)) for c in sorted({j.cfg for j in jl})}
    except build.BuildError as e:
        print('ERROR: the crate or the harness does not build:\n%s' % str(e)[-3000:])
        sys.exit(2)
    print('# %d jobs, IR ready after %.1f s' % (len(jl), time.time() - t0), flush=True)
    left = lambda: deadline - time.time()   # noqa: E731
    R = dict(done=[], bad=[], viol=[], findings=[], skipped=[])
    for j, r in pool.run_jobs(jl, lambda j: jobtab.runner(j)(j, progs, prop, min(left(), 150) if j.opt.get('optional') and o.tier == 'quick' else left()), o.jobs, deadline):
        if o.v or r['status'] != 'ok':
            print('# %-40s %-9s %6.1fs %s' % (j.name, r['status'], r.get('wall', 0),
                                             r.get('why') or r.get('msg') or ''), flush=True)
            if r['status'] == 'error':
                print(r.get('tb', ''))
        if r['status'] == 'ok' and not r.get('ends', 1) and not any(k.startswith('panic:') for k in r.get('covers', {})):
            r['status'], r['why'] = 'vacuous', 'no path reaches the end'
        if r['status'] == 'violation':
            if confirm(o, prop, j, r, R) and not o.keep_going:
                break
        elif r['status'] == 'ok':
            R['done'].append((j, r))
        elif j.opt.get('optional') and r['status'] != 'error':
            R['skipped'].append((j, r))
        else:
            R['bad'].append((j, r))
    if not R['viol'] and spec.get('witness', True):
        validate(R, prop, deadline)
    sys.exit(finish(o, spec, R, t0, evf))


def confirm(o, prop, j, r, R):
    """Replays a counterexample against the real crate. True if it is a new violation."""
    n = len(R['viol']) + len(R['bad']) + len(R['findings'])
    path = os.path.join(EV, 'replay-%s-%d.tape' % (prop, n))
    head = ['property %s' % prop, 'harness %s' % j.name, '%s: %s' % (r['kind'], r['msg']), 'in: %s' % r.get('trace'),
            'run: see /verif/README, replay %s %s <this file>' % (j.h, ','.join(map(str, j.args)))]
    build.write_tape(path, head, r['tape'])
    tries = []
    for fl in jobtab.flavours(j, r):
        try:
            out, txt = jobtab.replayer(j)(j.cfg, fl, tagprop(prop), j.h, j.args, path, 20 if r['kind'] == 'hang' else 240)
        except build.BuildError as e:
            out, txt = 'other', str(e)[-500:]
        if out == 'timeout' and r['kind'] == 'hang':
            out, txt = 'violation', 'the program does not end (%s)' % txt
        tries.append((fl, out, txt))
        if out == 'violation':
            break
    with open(path, 'a') as f:
        for t in tries:
            f.write('# replay %s: %s: %s\n' % t)
    r['replay'] = tries
    if tries and tries[-1][1] == 'violation':
        for k in known():
            if k.get('property') == prop and k.get('harness', '') in j.name and k.get('what', '') in r['msg']:
                R['findings'].append((j, r, k))
                return False
        r['path'] = path
        R['viol'].append((j, r))
        return True
    r['why'] = 'counterexample (%s: %s) not reproduced natively: %s' % (r['kind'], r['msg'], tries)
    R['bad'].append((j, r))
    print('# NOT REPRODUCED %s %s' % (j.name, r['why']), flush=True)
    return False


def validate(R, prop, deadline):
    """Replays one or two solver models per job: the real code has to agree with the encoding."""
    n = 0
    cmds = {}
    from concurrent.futures import ThreadPoolExecutor
    work = []
    os.makedirs(os.path.join(build.OUT, 'wit'), exist_ok=True)
    for j, r in R['done']:
        if j.cfg not in cmds and r.get('witness'):
            try:
                build.replay_cmd(j.cfg, 'dev')
            except build.BuildError as e:
                R['bad'].append((j, {'status': 'error', 'why': 'replay binary: ' + str(e)[-800:]}))
                return
            cmds[j.cfg] = 1
        for k, t in enumerate(r.get('witness', ())):
            if any(x[0] == 'A' for x in t):
                continue
            work.append((j, r, t))
    R['witnesses'] = 0

    def one(a):
        i, (j, r, t) = a
        p = os.path.join(build.OUT, 'wit', '%s-%d.tape' % (prop, i))
        build.write_tape(p, [j.name], t)
        return j, jobtab.replayer(j)(j.cfg, 'dev', tagprop(prop), j.h, j.args, p, 60)
    with ThreadPoolExecutor(8) as ex:
        for j, (out, txt) in ex.map(one, enumerate(work)):
            if out == 'ok':
                R['witnesses'] += 1
            else:
                R['bad'].append((j, {'status': 'mismatch', 'why': 'model does not replay: %s %s' % (out, txt)}))


def finish(o, spec, R, t0, evf):
    prop = o.prop
    tot = {}
    funcs, covers = {}, {}
    for j, r in R['done'] + R['viol'] + R['bad'] + [f[:2] for f in R['findings']]:
        for k, v in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
        for f in r.get('funcs', ()):
            funcs[f] = 1
        for k, v in r.get('covers', {}).items():
            if k.startswith('checked: '):
                covers[k] = covers.get(k, 0) + v
            else:
                covers[k] = bool(covers.get(k)) or bool(v)
    unreached = [k for k, v in covers.items() if k.startswith('reached: ') and not v]
    mrb = sorted({demangle(f) for f in funcs if 'mutringbuf' in f and 'mrbh' not in f[:12]})
    cov = {
        'explanation': spec['what'],
        'bounds': spec['bounds'],
        'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('instrs', 0)),
        'traces_validated_against_impl': R.get('witnesses', 0),
        'samples': R.get('samples') or [
            {'job': j.name, 'queries': r.get('stats', {}).get('queries'),
             'witness': str([x[:2] if x[0] == 'v' else x[:3] for x in (r.get('witness') or [[]])[0]][:40])}
            for j, r in R['done'][:3]],
        'obligations': int(tot.get('checks', 0)), 'solver_queries': int(tot.get('queries', 0)),
        'solver_seconds': round(tot.get('solver_s', 0), 1),
        'solver': {k: tot[k] for k in tot if k.endswith('_queries')},
        'jobs': len(R['done']) + len(R['bad']) + len(R['viol']),
        'jobs_decided': len(R['done']),
        'job_names': [j.name for j, _ in R['done']],
        'optional_jobs_undecided': [[j.name, str(r.get('why'))[:200]] for j, r in R.get('skipped', ())],
        'functions_encoded': mrb,
        'assertions_checked': {k[9:]: v for k, v in sorted(covers.items()) if k.startswith('checked: ')},
        'reached': {k[9:]: v for k, v in sorted(covers.items()) if k.startswith('reached: ')},
    }
    cov.update(R.get('extra', {}))
    ev = {'property': prop, 'tier': o.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec['level'],
          'coverage': cov, 'assumptions': spec['assumes'], 'wall_s': round(time.time() - t0, 1),
          'violations': len(R['viol'])}
    with open(evf, 'w') as f:
        json.dump(ev, f, indent=1)
    print('# %s: %d jobs decided, %d undecided, %d queries, %.0f s solver, %.0f s wall, %d witnesses replayed' % (
        prop, len(R['done']), len(R['bad']), tot.get('queries', 0), tot.get('solver_s', 0), time.time() - t0,
        R.get('witnesses', 0)))
    for j, r, k in R['findings']:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, j.name, r['msg']))
    if R['viol']:
        for j, r in R['viol']:
            print('%s: %s: %s (%s)' % (j.name, r['kind'], r['msg'], r.get('replay', [('', '', '')])[-1]))
            print('VIOLATION property=%s replay=%s' % (prop, r['path']))
        return 1
    if unreached and not o.only and not R['bad']:
        print('# never reached:', unreached)
    if R['bad']:
        for j, r in R['bad'][:20]:
            print('UNDECIDED %s: %s' % (j.name, str(r.get('why'))[:600]))
        return 2
    return 0


if __name__ == '__main__':
    main()

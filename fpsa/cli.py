"""Command line: decide one property on the current source tree.

  python3 -m fpsa check C01 [--tier quick|thorough] [--root /repo] [-v]
"""
import argparse
import collections
import fnmatch
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, 'known_findings.txt')
SUITE_LIMIT = {'quick': 300, 'thorough': 700}
BUDGET = {'quick': 600, 'thorough': 800}     # whole check; a check gets 900 s
_PROG = None


class Late(BaseException):
    pass


def _alarm(*a):
    raise Late()


def late(fname):
    return dict(status='undecided', label=fname, ctx='', where='', detail='time limit', rule='', key=fname)


def _limit():
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ImportError, ValueError, OSError):
        pass


def _work(job):
    root, prop, tier, mod, fname, start = job
    left = BUDGET[tier] - (time.time() - start)
    if left < 5:
        return (mod, fname, [dict(late(fname))], [], 0, 0.)
    from . import lab
    sys.setrecursionlimit(9000)
    from . import algebra
    L = lab.Lab(root, prop, tier)
    m = importlib.import_module('fpsa.specs.' + mod)
    f = getattr(m, fname)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(min(SUITE_LIMIT[tier], left))))
    try:
        L.guarded(fname, lambda: f(L))
        if L.intargs:
            L.storage(fname)
    except Late:
        L.add('undecided', fname, '', '', 'time limit', '')
    except MemoryError:
        L.add('undecided', fname, '', '', 'memory', '')
    finally:
        signal.alarm(0)
    left = BUDGET[tier] - (time.time() - start)
    if left > 10 and L.sessions and not algebra.CONCRETE[0] and any(o['status'] == 'undecided' for o in L.obs) and not any(o['status'] == 'violation' for o in L.obs):
        # inconclusive for sizes in general: the same obligations for one choice of sizes,
        # where loops have known bounds.  Only breaches found there count.
        L2 = lab.Lab(root, prop, tier)
        algebra.CONCRETE[0] = True
        signal.alarm(int(min(SUITE_LIMIT[tier] * 0.5, left)))
        try:
            L2.guarded(fname, lambda: f(L2))
        except (Late, MemoryError):
            pass
        finally:
            signal.alarm(0)
            algebra.CONCRETE[0] = False
        for o in L2.obs:
            if o['status'] == 'violation':
                L.obs.append(dict(o, ctx=o['ctx'] + ' (sizes n=3, m=2, l=4)'))
    funcs = set()
    for s in L.sessions:
        for i in s.I.funcs_seen:
            funcs.add('%s:%s' % i)
    funcs |= L.funcs
    return (mod, fname, L.obs, sorted(funcs), sum(400000 - s.I.fuel for s in L.sessions), time.time() - t0)


def run(prop, tier, root, only=None, jobs=8):
    from . import specs
    work = []
    start = time.time()
    for mod in specs.MODULES:
        m = importlib.import_module('fpsa.specs.' + mod)
        for f in m.SUITES:
            tags = getattr(f, 'tags', None)
            if tags is not None and prop not in tags and not (prop == 'C40' and 'C34' in tags):
                continue
            if only and f.__name__ not in only:
                continue
            work.append((root, prop, tier, mod, f.__name__, start))
    if jobs > 1:
        # a worker that dies (memory) must not leave the check waiting for it
        with multiprocessing.Pool(jobs, _limit, maxtasksperchild=None) as pool:
            todo = [(w, pool.apply_async(_work, (w,))) for w in work]
            res = []
            for w, r in todo:
                try:
                    res.append(r.get(max(1., start + BUDGET[tier] + 30 - time.time())))
                except multiprocessing.TimeoutError:
                    res.append((w[3], w[4], [late(w[4])], [], 0, 0.))
            pool.terminate()
    else:
        res = [_work(w) for w in work]
    res.sort(key=lambda r: (r[0], r[1]))
    return res


def load_findings(path=FINDINGS):
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(kv.split('=', 1) for kv in line[len('known: '):].split(' | '))
                known.append(d)
    return known


def func_of(ob):
    w = ob['where'].split(' ')
    return (w[0].split(':')[0] + ':' + w[-1]) if len(w) > 1 else ob['where']


def known_for(prop, ob, known):
    for k in known:
        if k['property'] == prop and fnmatch.fnmatchcase(func_of(ob), k['at']) and fnmatch.fnmatchcase(ob['label'], k['what']) \
                and fnmatch.fnmatchcase(ob['ctx'], k.get('when', '*')) and fnmatch.fnmatchcase(ob['detail'], k.get('shows', '*')):
            return k
    return None


def main(argv):
    ap = argparse.ArgumentParser(prog='fpsa')
    ap.add_argument('cmd', choices=['check'])
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--suite', action='append')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in SUITE_LIMIT:
        a.tier = 'quick'
    t0 = time.time()
    res = run(a.property, a.tier, a.root, a.suite, a.j)
    obs = []
    funcs = set()
    steps = 0
    for mod, fname, o, fs, st, dt in res:
        obs += o
        funcs |= set(fs)
        steps += st
        if a.v:
            print('  suite %s.%s: %d obligations, %.1fs' % (mod, fname, len(o), dt))
    cnt = collections.Counter(o['status'] for o in obs)
    known = load_findings()
    fresh, old = [], []
    for o in obs:
        if o['status'] == 'violation':
            k = known_for(a.property, o, known)
            (old if k else fresh).append((o, k))
    wall = time.time() - t0
    report = os.path.join('evidence', '%s.report.txt' % a.property)
    rules = collections.Counter(o['rule'] for o in obs if o['status'] == 'ok')
    print('%s: %d obligations over %d functions: %d hold, %d violated, %d undecided, %d anchors missing (%.1fs)' % (
        a.property, len(obs), len(funcs), cnt['ok'], cnt['violation'], cnt['undecided'], cnt['anchor'], wall))
    groups = collections.OrderedDict()
    for o, _ in fresh:
        groups.setdefault((func_of(o), o['label']), []).append(o)
    lines = []
    for (fn, lab), os_ in groups.items():
        o = os_[0]
        lines.append('VIOLATED %s\n  rule: %s (%s)\n  context: %s%s\n  %s' % (
            o['where'] or '?', o['label'], o['rule'], o['ctx'], ' (+%d more)' % (len(os_) - 1) if len(os_) > 1 else '', o['detail']))
    und = collections.OrderedDict()
    for o in obs:
        if o['status'] in ('undecided', 'anchor'):
            und.setdefault((o['status'], func_of(o), o['label'], o['detail'][:80]), []).append(o)
    ulines = ['%s %s: %s [%s] %s (%d)' % (k[0].upper(), k[1], k[2], v[0]['ctx'], k[3], len(v)) for k, v in und.items()]
    for ln in lines[:40]:
        print(ln)
    for ln in ulines[:20 if not a.v else 10000]:
        print(ln)
    seen = []
    for o, k in old:
        if k not in seen:
            seen.append(k)
            print('KNOWN-FINDING: property=%s %s' % (a.property, k['note']))
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, report), 'w') as f:
            f.write('\n'.join(lines + ulines) + '\n')
        samples = []
        for o in obs:
            if o['status'] == 'ok' and o['where'] and len(samples) < 400:
                samples.append('%s: %s [%s]' % (o['where'], o['label'], o['ctx']))
        stepk = max(1, len(samples) // 12)
        ev = {
            'property': a.property, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static term-domain dataflow over the current source under %s/filterpy (parsed, never executed). Each obligation compares an output '
                               '(attribute, result, guard, alias, shape) of an entry point in an abstract configuration of unknown dimensions and values with its '
                               'specification term; only obligations decided HOLDS count as ok.' % a.root,
                'obligations': len(obs), 'held': cnt['ok'], 'violated': cnt['violation'], 'known': len(old), 'undecided': cnt['undecided'],
                'anchors_missing': cnt['anchor'], 'functions_analysed': sorted(funcs), 'statements_interpreted': steps,
                'decided_by': dict(rules), 'suites': ['%s.%s' % (r[0], r[1]) for r in res if r[2]],
                'samples': samples[::stepk][:12], 'undecided_list': ulines[:60],
            },
            'assumptions': ['real (exact) arithmetic', 'numpy/scipy functions behave as their transfer functions in fpsa/npmodel.py say',
                            'arguments conform to the documented types and shapes', 'caller-supplied functions do not modify their arguments'],
            'wall_s': round(wall, 2), 'violations': len(fresh),
        }
        with open(os.path.join(HERE, 'evidence', '%s.json' % a.property), 'w') as f:
            json.dump(ev, f, indent=1)
    if fresh:
        print('VIOLATION property=%s replay=%s' % (a.property, report))
        return 1
    if cnt['anchor'] or not cnt['ok']:
        print('ANALYSIS-BROKEN: %d public entry points missing, %d obligations held' % (cnt['anchor'], cnt['ok']))
        return 2
    return 0

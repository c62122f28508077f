#!/usr/bin/env python3
"""Runs the check of one property: builds the engines it needs from /repo's current tree in a scratch directory,
explores, writes the evidence file and reports violations.

usage: check.py PROPERTY quick|thorough
       check.py --replay FILE
       check.py --list
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, 'src')
REPO = os.environ.get('VERIF_REPO', '/repo')
CLINGO = '/opt/clingo-venv/lib/python3.12/site-packages/clingo'
JOBS = max(2, os.cpu_count() or 2)

sys.path.insert(0, HERE)
from props import PROPS, ENGINES, VARIANTS  # noqa: E402


def lib_flags(var='plain'):
    return ['-std=gnu++17', '-g1', '-w', VARIANTS[var].get('math', '-DCLINGOLPX_USE_FLINT'), '-DCLINGOLPX_NO_VISIBILITY',
            '-I%s/libclingo-lpx' % REPO, '-I%s/libclingo-lpx/src' % REPO, '-I' + CLINGO]


def link_flags():
    so = glob.glob(CLINGO + '/_clingo.cpython-312*.so')[0]
    return [so, '-lpython3.12', '-lflint', '-lgmpxx', '-lgmp', '-lpthread', '-ldl', '-Wl,-rpath,' + CLINGO]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout


def build(out, wanted):
    """wanted: set of (engine, variant). Compiles everything needed in parallel.
    Returns the optional variants that could not be built (see VARIANTS)."""
    objs, tasks, skipped = {}, [], {}

    def attempt(task):
        var, cmd = task
        try:
            run(cmd)
        except BuildError as e:
            if not VARIANTS[var].get('optional'):
                raise
            skipped[var] = str(e)[-600:]

    for eng, var in sorted(wanted):
        vflags = VARIANTS[var]['flags']
        spec = ENGINES[eng]
        files = [os.path.join(SRC, f) for f in spec['sources']]
        if spec.get('lib', True):
            files += sorted(glob.glob(REPO + '/libclingo-lpx/src/*.cc'))
        for f in spec.get('repo_sources', []):
            files += sorted(glob.glob(os.path.join(REPO, f)))
        for f in files:
            key = (f, var)
            if key in objs:
                continue
            o = os.path.join(out, '%s-%s-%d.o' % (os.path.basename(f), var, len(objs)))
            objs[key] = o
            flags = lib_flags(var) + ['-I' + SRC] + ['-I%s/%s' % (REPO, i) for i in spec.get('repo_includes', [])]
            tasks.append((var, ['g++'] + VARIANTS[var].get('opt', ['-O1']) + vflags + flags + ['-c', f, '-o', o]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(attempt, sorted(tasks, key=lambda t: 0 if SRC in t[1][-3] else 1)))
        links = []
        for eng, var in sorted(wanted):
            if var in skipped:
                continue
            spec = ENGINES[eng]
            files = [os.path.join(SRC, f) for f in spec['sources']]
            if spec.get('lib', True):
                files += sorted(glob.glob(REPO + '/libclingo-lpx/src/*.cc'))
            for f in spec.get('repo_sources', []):
                files += sorted(glob.glob(os.path.join(REPO, f)))
            links.append((var, ['g++'] + VARIANTS[var]['flags'] + ['-o', os.path.join(out, eng + '-' + var)] + [objs[(f, var)] for f in files]
                         + spec.get('link', {}).get('', []) + spec.get('link', {}).get(var, []) + link_flags()))
        list(ex.map(attempt, links))
        extra = set(ENGINES[eng].get('extra') for eng, _ in wanted)
        for e in extra:
            if e == 'frontends':
                build_frontends(out)
    return skipped


def build_frontends(out):
    """Builds the executable and the Python module like the project does, but into out."""
    import frontends
    frontends.build(REPO, CLINGO, out, run)


def engine_cmd(out, eng, var, args, tier, cap, workers=JOBS):
    exe = os.path.join(out, eng + '-' + var)
    return [exe, '--tier=' + tier, '--cap-s=%d' % cap, '--workers=%d' % workers, '--dir=' + out] + args


def env_for(var):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_thread_leaks=0'
    e['LC_ALL'] = 'C.UTF-8'
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    return e


def known_findings():
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                res.append(line[len('finding:'):].strip())
    return res


def scratch():
    base = os.environ.get('TMPDIR', '/tmp')
    return tempfile.mkdtemp(prefix='verif-', dir=base)


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    runs = spec['runs'](tier) if callable(spec['runs']) else spec['runs']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    out = scratch()
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    violations, details = [], []
    tot = {'states': 0, 'transitions': 0, 'traces': 0}
    samples = []
    exhaustive = True
    try:
        skipped = build(out, {(r['engine'], r.get('variant', 'plain')) for r in runs})
        tb = time.time() - t0
        for r in runs:
            eng, var = r['engine'], r.get('variant', 'plain')
            if var in skipped:
                details.append({'engine': eng, 'variant': var, 'args': r.get('args', []), 'not_run': 'this variant could not be built: ' + skipped[var]})
                exhaustive = False
                continue
            cap = r.get('cap', 150 if tier == 'quick' else 1500)
            if tier == 'quick':
                cap = max(20, min(cap, int(700 - (time.time() - t0))))
            res = os.path.join(out, 'res.json')
            cmd = engine_cmd(out, eng, var, r.get('args', []) + ['--out=' + res], tier, cap)
            if r.get('kinds'):
                cmd.append('--kinds=' + ','.join(r['kinds']))
            if os.path.exists(res):
                os.unlink(res)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env_for(var))
            if not os.path.exists(res):
                raise BuildError('engine failed: %s\n%s\n%s' % (' '.join(cmd), p.stdout[-2000:], p.stderr[-4000:]))
            d = json.load(open(res))
            c = d['counters']
            m = ENGINES[eng]['measure']
            tot['states'] += sum(c[k] for k in m['states'])
            tot['transitions'] += sum(c[k] for k in m['transitions'])
            tot['traces'] += sum(c[k] for k in m['traces'])
            exhaustive = exhaustive and not d['capped'] and not d['violations']
            samples += d['samples'][:2]
            details.append({'engine': eng, 'variant': var, 'args': r.get('args', []), 'jobs': d['jobs_total'], 'jobs_done': d['jobs_done'], 'cut_short': d['capped'], 'wall_s': d['wall_ms'] / 1000.0,
                            'counters': {k: v for k, v in c.items() if v}, 'unreproduced': d['unconfirmed']})
            for v in d['violations']:
                v['stderr'] = p.stderr[-4000:]
                v['engine'], v['variant'], v['args'] = eng, var, r.get('args', [])
                violations.append(v)
            if violations:
                break
        wall = time.time() - t0
        new = []
        known = known_findings()
        for v in violations:
            ident = '%s %s %s' % (prop, v['engine'], v['describe'])
            hit = [k for k in known if k.startswith(prop + ' ') and k.split(' | ')[0] in ident]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
            else:
                new.append(v)
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces'],
                'samples': samples[:8], 'exhaustive': exhaustive, 'explanation': spec['explain'], 'runs': details, 'build_s': round(tb, 1),
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(wall, 2), 'violations': len(new),
        }
        with open(os.path.join(evid, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for i, v in enumerate(new):
            path = os.path.join(evid, '%s.replay.%d.json' % (prop, i))
            v['tier'], v['property'] = tier, prop
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('%s: %s\n  in %s\n  case %s' % (v['kind'], v['msg'], v['describe'], v['case']))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        if not new:
            print('%s held: %d states, %d transitions, %d traces on the real code, %.1f s%s' % (prop, tot['states'], tot['transitions'], tot['traces'], wall, '' if exhaustive else ' (cut short)'))
        return 1 if new else 0
    except BuildError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(out, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    out = scratch()
    try:
        build(out, {(v['engine'], v['variant'])})
        cmd = engine_cmd(out, v['engine'], v['variant'], v['args'] + ['--replay=%d:%s' % (v['job'], v['case'])], v['tier'], 600)
        return subprocess.run(cmd, env=env_for(v['variant'])).returncode
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--list':
        for p in PROPS:
            print(p)
        return 0
    if len(a) < 1 or a[0] not in PROPS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Front ends: builds the executable and the Python module and runs all bounded programs and options through both and through the
reference driver (src/frontref.cc), comparing the complete outputs and exit codes.

As an engine: frontends.py --run OUT --tier=T --family=F --out=FILE [--cap-s=N] [--workers=N] [--replay=JOB:-]
"""
import glob
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/clingo-venv/bin/python'
LIMIT = 20


def build(repo, clingo, out, run):
    """Called by check.py after the reference driver was linked as out/frontends-plain."""
    os.rename(os.path.join(out, 'frontends-plain'), os.path.join(out, 'frontref'))
    inc = ['-I%s/libclingo-lpx' % repo, '-I%s/libclingo-lpx/src' % repo, '-I%s/app/lib' % repo, '-I' + clingo]
    flags = ['-std=gnu++17', '-g1', '-w', '-O1', '-fPIC', '-DCLINGOLPX_USE_FLINT', '-DCLINGOLPX_NO_VISIBILITY'] + inc
    so = glob.glob(clingo + '/_clingo.cpython-312*.so')[0]
    libs = [so, '-lpython3.12', '-lflint', '-lgmpxx', '-lgmp', '-lpthread', '-Wl,-rpath,' + clingo]
    srcs = {'lib': sorted(glob.glob(repo + '/libclingo-lpx/src/*.cc')), 'app': sorted(glob.glob(repo + '/app/src/*.cc') + glob.glob(repo + '/app/lib/src/*.cc'))}
    procs, objs = [], {'lib': [], 'app': [], 'py': []}
    for kind, files in srcs.items():
        for i, f in enumerate(files):
            o = os.path.join(out, 'front-%s-%d.o' % (kind, i))
            objs[kind].append(o)
            procs.append(['g++'] + flags + ['-c', f, '-o', o])
    pyinc = subprocess.run([PYTHON, '-c', 'import sysconfig; print(sysconfig.get_path("include"))'], stdout=subprocess.PIPE, text=True).stdout.strip()
    o = os.path.join(out, 'front-py.o')
    objs['py'].append(o)
    procs.append(['gcc', '-g1', '-w', '-O1', '-fPIC', '-D_CFFI_NO_LIMITED_API', '-I' + pyinc] + inc + ['-c', repo + '/libpyclingo-lpx/_clingolpx.c', '-o', o])
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, procs))
    run(['g++', '-o', os.path.join(out, 'clingo-lpx')] + objs['app'] + objs['lib'] + libs)
    pkg = os.path.join(out, 'py', 'clingolpx')
    shutil.copytree(repo + '/libpyclingo-lpx/clingolpx', pkg, ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    run(['g++', '-shared', '-o', os.path.join(pkg, '_clingolpx.so')] + objs['py'] + objs['lib'] + libs)
    launcher = os.path.join(out, 'frontends-plain')
    with open(launcher, 'w') as f:
        f.write('#!/bin/sh\nexec "%s" "%s" --run "%s" "$@"\n' % (sys.executable, os.path.join(HERE, 'frontends.py'), out))
    os.chmod(launcher, 0o755)


# ---- programs ------------------------------------------------------------------------------------------------------

# (name, text, needs strict)
BASIC = [
    ('empty', '', False),
    ('plain', 'a. {b}. c :- b.', False),
    ('unsat', 'a. :- a.', False),
    ('lin-unsat', '&sum{x}<=1. &sum{x}>=2.', False),
    ('single', '&sum{x}>=3.', False),
    ('vars', '{a}. &sum{x;y}>=3 :- a. &sum{y}<=1. &sum{x-z}=2.', False),
    ('names', '&sum{x}>=1. &sum{x(1)}>=2. &sum{x(1,2)}>=3. &sum{x(a)}>=4. &sum{x("a")}>=5. &sum{x(-1)}>=6. &sum{f(x)}>=7. &sum{-x(1)}<=0. &sum{xx}>=8. &sum{aa(3)}>=9.', False),
    ('tuples', '&sum{(1,2)}>=1. &sum{(a,)}>=2. &sum{()}>=3. &sum{((1,2),x)}>=4. &sum{(2,1)}>=5. &sum{f((1,2))}>=6.', False),
    ('numbers', '&sum{f(10)}>=1. &sum{f(9)}>=2. &sum{f(-10)}>=3. &sum{f(2)}>=4. &sum{f(100)}>=5. &sum{f(a)}=6. &sum{f("9")}=7. &sum{f(#inf)}=8. &sum{f(#sup)}=9.', False),
    ('strings', r'&sum{f("a b")}=1. &sum{f("a\"b")}=2. &sum{f("a\\b")}=3. &sum{f("a=b")}=4. &sum{f("")}=5. &sum{f("\n")}=6.', False),
    ('values', '&sum{a}="0.5". &sum{b}=1/3. &sum{c}= -7/3. &sum{3*d}=2. &sum{e}="123456789012345678901234567890.5". &sum{f}=0. &sum{g}= -1.', False),
    ('max', '{a}. &sum{x}<=1 :- a. &sum{x}<=2 :- not a. &maximize{x}.', False),
    ('min', '{a}. &sum{x}>=1 :- a. &sum{x}>=2 :- not a. &minimize{x}.', False),
    ('unbounded', '{a}. &sum{x}<=1 :- a. &sum{x}>=0. &maximize{x}.', False),
    ('constobj', '{a}. &sum{x}<=1 :- a. &maximize{3}.', False),
    ('emptyobj', '{a}. &sum{x}<=1 :- a. &maximize{}.', False),
    ('fracobj', '&sum{3*x;y}<=1. &sum{x}>=0. &sum{y}>=0. &maximize{x/2;y/7}.', False),
    ('negobj', '{a;b}. &sum{x}<= -1 :- a. &sum{x}<= -2 :- b. &sum{x}<=0. &maximize{x}.', False),
    ('objonly', '&maximize{x}.', False),
    ('strict', '{a}. &sum{x}>1 :- a. &sum{x}<2. &sum{y}>x.', True),
    ('strict-obj', '{a}. &sum{x}<1 :- a. &sum{x}<2. &maximize{x}.', True),
    ('strict-neg', '&sum{x}<0. &sum{y}> -1. &sum{z}> "0.5". &minimize{x}. &sum{x}> -3/2.', True),
    ('show', '{a;b}. &sum{x}<=1 :- a. &sum{x}>=0. #show a/0. #show c : b. #show d(x) : a.', False),
    ('shownone', '{a}. &sum{x}=1 :- a. #show.', False),
    ('order', 'f(10). f(9). b. a(1). a("x"). -a(2). z. f(1,2). g(). "s"=X :- X="s", a(1). a(-1). a(f(1)).', False),
    ('lpxatoms', '__lpx(a,"1"). __lpx_objective("2",1). &sum{x}=3. __lpx(b,2).', False),
    ('lpxvar', '&sum{__lpx(a,"1")}=1. &sum{__lpx}=2. &sum{__lpx_objective}=3. &maximize{__lpx_objective}.', False),
    ('dom', '{a}. &dom{1..3}=x. &sum{x}>=2 :- a. &minimize{x}.', False),
    ('diff', '{a}. &diff{x-y}<=3 :- a. &diff{y-x}<= -1. &sum{y}>=2.', False),
    ('cond', '{a;b}. &sum{x:a;y:b;1:a}>=2. &sum{x}<=5. &sum{y}<=7.', False),
    ('many', '{a(1..3)}. &sum{x(I)}>=I :- a(I). &sum{x(I):I=1..3}<=4.', False),
    ('wc', '{a;b}. &sum{x}>=1 :- a. &sum{x}<=2 :- b. :~ not a. [1@2,a] :~ b. [2@1]', False),
    ('minimize', '{a;b}. &sum{x}>=1 :- a. #minimize{1:a;2:b}. &minimize{x}. :- not a, not b. &sum{x}>=0.', False),
    ('asp', 'p(1..3). 1{q(X):p(X)}2. r(X):-q(X),not s(X). s(X):-p(X),not r(X). #count{X:r(X)}>=1. &sum{v(X)}>=X :- r(X). t;u. :-t,u.', False),
]
STATEMENTS = [
    ('pools', 'p(1;2;3). q(X,Y):-X=(1;2),Y=1..2. &sum{v(1;2)}>=1.', False),
    ('const', '#const n=3. #const s="x". p(n). &sum{x}=n. q(s).', False),
    ('external', '#external e. #external f(X) : X=1..2. [true] {a}. b:-e. &sum{x}>=1:-e.', False),
    ('project', '{a;b}. &sum{x}=1 :- a. #project a/0. #project c : b.', False),
    ('heuristic', '{a;b}. #heuristic a : b. [1@2,true] &sum{x}=1 :- a.', False),
    ('edge', '{e(1,2);e(2,1)}. #edge (X,Y) : e(X,Y). &sum{x}=1 :- e(1,2).', False),
    ('defined', '#defined z/1. a:-not z(1). &sum{x}=1 :- a.', False),
    ('program', 'a. #program step(t). b(t). #program base. c. &sum{x}=1.', False),
    ('comments', '% comment\na. %* block\n comment *% b. &sum{x}=1. % &sum{x}=2.', False),
    ('classical', '{-a;a}. &sum{x}>=1:- -a. &sum{-x}>= -3.', False),
    ('disj', 'a;b;c:d. {d}. c:-d. &sum{x}=1:-a. &sum{x}=2:-b.', False),
    ('aggregates', '{a(1..3)}. s(S):-S=#sum{X:a(X)}. m(M):-M=#max{X:a(X)}. &sum{x}=S:-s(S).', False),
    ('theoryfun', '&sum{f(1+2)}=1. &sum{2*g(X)}=X*2 :- X=1..2. &sum{h}=(1+2)*3-4.', False),
    ('include', '#include "inc.lp". &sum{x}=1 :- inc.', False),
    ('script', '#script (python)\nimport clingo\ndef f(x):\n  return clingo.Number(x.number+1)\n#end.\np(@f(1)). &sum{x}=1.', False),
    ('theory', '#theory t { u { - : 1, unary }; &foo/1 : u, any }. &foo(1) { -a }. &sum{x}=1.', False),
    ('choice', '1{a;b;c}2. &sum{x}>=1:-a,b. :-not a.', False),
    ('arith', 'p(X+1,-X,|X|,X**2,X\\2,X&3,X^1,X?2,~X):-X=3..4. &sum{x}=1.', False),
]
ERRORS = [
    ('syntax', 'a :- b', False),
    ('syntax2', '&sum{x}<=1 &sum{y}>=1.', False),
    ('unsafe', 'a(X).', False),
    ('nonlinear', '&sum{x*y}<=1.', False),
    ('divzero', '&sum{x/0}<=1.', False),
    ('dompoint', '&dom{1..x}=y.', False),
    ('unstrict', '&sum{x}<1.', False),
    ('unknownatom', '&foo{x}<=1.', False),
    ('noguard', '&sum{x}.', False),
    ('bodyatom', 'a :- &sum{x}<=1.', False),
    ('badnumber', '&sum{x}<="1/0".', False),
    ('undefined', 'a :- undefd. &sum{x}=1.', False),
    ('redef', '#theory lp { t { + : 1, unary }; &sum/0 : t, any }.', False),
    ('incmissing', '#include "missing.lp".', False),
]

SINGLE = [[], ['0'], ['1'], ['2'], ['--outf=0', '0'], ['--outf=1', '0'], ['--outf=2', '0'], ['--outf=3', '0'], ['--stats', '0'], ['--stats=2', '0'], ['-q', '0'], ['-q1', '0'], ['--verbose=0', '0'], ['-V3', '0'],
          ['--strict', '0'], ['--no-strict', '0'], ['--propagate-conflicts', '0'], ['--propagate-bounds=changed', '0'], ['--propagate-bounds=full', '0'], ['--objective=local', '0'], ['--objective=global', '0'],
          ['--objective=global,1', '0'], ['--objective=global,1/2', '0'], ['--objective=global,e', '0'], ['--select=match', '0'], ['--select=conflict', '0'], ['--store=partial', '0'], ['--store=total', '0'],
          ['--strict', '--objective=global', '0'], ['--strict', '--objective=global,e', '0'], ['--project', '0'], ['--enum-mode=record', '0'], ['--enum-mode=brave', '0'], ['--enum-mode=cautious', '0'],
          ['--opt-mode=optN', '0'], ['--opt-mode=ignore', '0'], ['--opt-mode=enum', '0'], ['--configuration=crafty', '0'], ['--configuration=handy', '0'], ['--sat-prepro=2', '0'], ['--heuristic=Domain', '0'],
          ['-c', 'n=7', '0'], ['--text'], ['--mode=gringo'], ['--warn=none', '0'], ['--select=nope'], ['--objective=global,x'], ['--propagate-bounds=1'], ['--store=yes'], ['--no-such-option'], ['--strict=maybe']]
ONCE = [['--help'], ['--help=3'], ['--version'], ['no-such-file.lp'], []]
CORE_OPTS = [['--strict', '--no-strict'], ['--propagate-conflicts'], ['--propagate-bounds=changed', '--propagate-bounds=full'],
             ['--objective=global', '--objective=global,1', '--objective=global,e'], ['--select=match', '--select=conflict'], ['--store=partial', '--store=total']]


def cases(family, tier):
    """Yields (name, list of (file name, text), stdin text or None, arguments, front ends)."""
    thorough = tier == 'thorough'
    progs = BASIC + STATEMENTS + ERRORS
    both = ('exe', 'py')
    if family == 'single':
        for p in progs:
            for o in SINGLE:
                o = list(o)
                if p[2] and '--strict' not in o and '--no-strict' not in o:
                    o.insert(0, '--strict')
                yield p[0], [('p.lp', p[1])], None, o + ['p.lp'], both
        for o in ONCE:
            yield 'none', [], 'a. {b}. &sum{x}>=1 :- b.', o, ('exe',) if o and o[0].startswith('--help') else both
        # files and standard input
        for a, b in itertools.product(BASIC[:18:2], BASIC[1:18:4]):
            yield a[0] + '+' + b[0], [('p.lp', a[1]), ('q.lp', b[1])], None, ['0', 'p.lp', 'q.lp'], both
            yield a[0] + '+' + b[0], [('p.lp', a[1])], b[1], ['0', 'p.lp', '-'], both
        yield 'twice', [('p.lp', BASIC[5][1])], None, ['0', 'p.lp', 'p.lp'], both
        yield 'missing', [('p.lp', BASIC[5][1])], None, ['0', 'p.lp', 'q.lp'], both
        yield 'python', [('p.lp', STATEMENTS[14][1])], None, ['0', 'p.lp', '--enable-python'], ('python-script',)
    elif family == 'pairs':
        sets = [[]]
        opts = CORE_OPTS
        for n in range(2, 4 if not thorough else 5):
            for groups in itertools.combinations(opts, n):
                sets += [list(c) for c in itertools.product(*groups)]
        for i, p in enumerate(BASIC):
            for j, o in enumerate(sets):
                if not thorough and (i * 7 + j) % 6 != 0:
                    continue
                o = list(o)
                if p[2] and '--strict' not in o and '--no-strict' not in o:
                    o.insert(0, '--strict')
                yield p[0], [('p.lp', p[1])], None, o + ['0', 'p.lp'], both
    elif family == 'programs':
        # all programs of a small grammar: constraint, second constraint, objective, show statement
        cons = ['&sum{x}>=1 :- a.', '&sum{x;y}<=3.', '&sum{f(x)}="0.25" :- b.', '&sum{-1*y}>= -1 :- not a.', '&sum{f(1);f(2)}=1/3.', '&dom{-2..2}=y.', '&diff{z-x}<=2 :- a.', '&sum{x}>=5 :- a, b.']
        objs = ['', '&maximize{x}.', '&minimize{x;-1*y}.', '&maximize{y:a}.']
        shows = ['', '#show a/0.', '#show. #show t(X) : X=1..2, a.']
        for i, j in itertools.combinations(range(len(cons)), 2):
            for o, s in itertools.product(objs, shows):
                yield 'g', [('p.lp', '{a;b}. %s %s %s %s' % (cons[i], cons[j], o, s))], None, ['0', 'p.lp'], both
                if thorough:
                    for k in range(j + 1, len(cons)):
                        for opt in (['0'], ['0', '--objective=global'], ['1', '--stats']):
                            yield 'g', [('p.lp', '{a;b}. %s %s %s %s %s' % (cons[i], cons[j], cons[k], o, s))], None, opt + ['p.lp'], both
    elif family == 'api':
        for name, script in scripts(thorough):
            yield name, [('p.lp', '\n'.join('\t'.join(c).replace('\n', '\x01') for c in script))], None, ['--api', 'p.lp'], ('api',)
    else:
        raise SystemExit('unknown family')


CONFS = [[], [('strict', 'yes')], [('propagate-bounds', 'full'), ('propagate-conflicts', 'true')], [('objective', 'global')], [('objective', 'global,1/2'), ('store', 'partial')], [('select', 'match'), ('store', 'total')]]
BADCONF = [('strict', 'maybe'), ('objective', 'global,x'), ('objective', 'globally'), ('propagate-bounds', ''), ('store', 'yes'), ('nokey', 'yes'), ('select', 'matc'), ('propagate-conflicts', '1 ')]
LOOK = ['x', 'y', 'f(x)', 'x(1)', '(1,2)', '"x"', '1', 'z', 'p(1)']
PARTS = ['{a;b}. &sum{x}>=1 :- a. &sum{x}<=3. &sum{x}>= -3.', '&sum{x;y}>=3 :- a. &sum{y}<=1.', '&sum{x}<=0.', '&sum{f(x)}=1/3. &sum{x(1)-x}<=2 :- b. {c}.', '&maximize{x}. {d}. &sum{x}<=2 :- d.',
         '#external e. &sum{x}>=2 :- e. &dom{1..2}=z.', '&diff{y-x}<=1. #show. #show t : b. #show a/0.', ':- a. &sum{(1,2)}="0.5".']


def scripts(thorough):
    """Scripts of library calls: one program under all configurations, histories of several steps, errors and two theories at once."""
    def start(confs, args=('0',)):
        return [['new', *args], ['version']] + [['conf', k, v] for k, v in confs] + [['register']]

    def step(i, limit='0', *assumptions):
        return [['ground', 's%d' % i if isinstance(i, int) else i], ['prepare'], ['look', *LOOK], ['solve', limit, *assumptions]]

    parts = [['add', '#program s%d. %s' % (i, t)] for i, t in enumerate(PARTS)]
    # every program
    for name, text, strict in BASIC + STATEMENTS + ERRORS:
        if 'inc' in name or name == 'script' or (text in [e[1] for e in ERRORS] and name not in ('nonlinear', 'divzero', 'dompoint', 'unstrict', 'badnumber')):
            continue  # where errors in the program itself are reported is up to clingo
        for conf in CONFS:
            conf = [('strict', 'on')] * strict + conf
            for limit in '01':
                yield 'api-' + name, start(conf) + [['add', text]] + step('base', limit) + [['solve', '0'], ['look', *LOOK]]
    # values of options
    for conf in BADCONF:
        for other in CONFS[1:4]:
            yield 'api-conf', start([conf] + other) + [['validate'], ['add', BASIC[12][1]]] + step('base')
            yield 'api-conf', start(other + [conf]) + [['add', BASIC[12][1]]] + step('base')
    # histories
    n = 3 if not thorough else 4
    for conf in CONFS[:4] if not thorough else CONFS:
        for h in itertools.permutations(range(1, len(PARTS)), n - 1):
            sc = start(conf) + parts
            for k, i in enumerate((0,) + h):
                sc = sc + step(i, '1' if (k + sum(h)) % 3 == 0 else '0', *(['-a'] if (k + h[0]) % 4 == 1 else ['b'] if (k + h[-1]) % 5 == 2 else []))
                if i == 5:
                    sc = sc + [['assign', 'e', 'true'], ['solve', '0'], ['assign', 'e', 'free'], ['solve', '2'], ['assign', 'e', 'release'], ['solve', '0']]
            yield 'api-steps', sc
    # a failing step
    for bad in ('&sum{x*y}<=1.', '&sum{x}<1.', '&dom{1..x}=y.', '&sum{x/0}>=0.'):
        for i in range(1, 5):
            yield 'api-error', start([]) + parts + [['add', '#program bad. ' + bad]] + step(0) + step(i) + [['ground', 'bad'], ['prepare']]
    # two theories
    for i, j in itertools.product(range(1, len(PARTS)), repeat=2):
        for conf in ([], [('objective', 'global')]):
            one = [[['use', 'a']] + start(conf) + parts, [['use', 'a']] + step(0), [['use', 'a']] + step(i), [['use', 'a'], ['drop']]]
            two = [[['use', 'b']] + start(CONFS[2]) + parts, [['use', 'b']] + step(0), [['use', 'b']] + step(j), [['use', 'b'], ['drop']]]
            for pos in itertools.combinations(range(8), 4) if thorough else ((0, 2, 4, 6), (1, 2, 5, 6), (0, 1, 6, 7), (1, 2, 3, 4)):
                a, b = iter(one), iter(two)
                yield 'api-two', [c for k in range(8) for c in next(a if k in pos else b)]


TIMES = re.compile(r'\(Time: [^)]*\)|"(Total|Solve|Model|Unsat|CPU|Start|Stop)": [0-9.e-]+|^(Time|CPU Time)\s*:.*$|^c (Time|CPU Time).*$|\(Solving: .*\)|[0-9.]+s\b|"Time": .*', re.M)
INFO = re.compile(r'^p\.lp|^q\.lp', re.M)


def norm(s):
    return TIMES.sub('T', s)


def wrong(err):
    """Whether an error was reported (warnings do not count)."""
    return any(x in err.lower() for x in ('error', 'exception', 'traceback', 'panic'))


class Worker:
    def __init__(self, out, n):
        self.out, self.dir = out, os.path.join(out, 'front-w%d' % n)
        os.makedirs(self.dir, exist_ok=True)
        with open(os.path.join(self.dir, 'inc.lp'), 'w') as f:
            f.write('inc.')
        self.py = None

    def server(self):
        if self.py is None:
            env = dict(os.environ, PYTHONPATH=os.path.join(self.out, 'py'))
            self.py = subprocess.Popen([PYTHON, os.path.join(HERE, 'frontpy.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        return self.py

    def close(self):
        if self.py is not None:
            self.py.stdin.close()
            self.py.wait()

    def files(self, fs, stdin):
        for f in ('p.lp', 'q.lp'):
            p = os.path.join(self.dir, f)
            if os.path.exists(p):
                os.unlink(p)
        for f, t in fs:
            with open(os.path.join(self.dir, f), 'w') as h:
                h.write(t + '\n')
        with open(os.path.join(self.dir, 'in'), 'w') as h:
            h.write(stdin or '')

    def native(self, exe, args, env=None):
        with open(os.path.join(self.dir, 'in')) as i:
            try:
                p = subprocess.run([os.path.join(self.out, exe)] + args, cwd=self.dir, stdin=i, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=LIMIT, env=dict(os.environ, **(env or {})))
            except subprocess.TimeoutExpired:
                return 'timeout', '', ''
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

    def python(self, args):
        s = self.server()
        o, e = os.path.join(self.dir, 'out'), os.path.join(self.dir, 'err')
        s.stdin.write(json.dumps({'args': args, 'cwd': self.dir, 'stdin': os.path.join(self.dir, 'in'), 'out': o, 'err': e, 'limit': LIMIT}) + '\n')
        s.stdin.flush()
        line = s.stdout.readline()
        if not line:
            raise RuntimeError('the Python server ended')
        rc = int(line)
        return ('timeout' if rc == -14 else rc), open(o, encoding='utf-8', errors='replace').read(), open(e, encoding='utf-8', errors='replace').read()

    def case(self, c, count):
        """Returns (kind, message) of the first difference or None."""
        name, fs, stdin, args, fronts = c
        self.files(fs, stdin)
        for front in fronts:
            count['runs'] += 1
            if front == 'python-script':
                got = self.python(args)
                if got[0] not in (10, 30) or 'p(2)' not in got[1] or 'x=1' not in got[1]:
                    return 'frontend', 'scripts do not work with --enable-python: exit code %s, %s' % (got[0], got[1][-300:])
                continue
            if front == 'api':
                ref, got = self.native('frontref', args), self.python(args)
                if ref[0] != 0:
                    raise RuntimeError('reference failed: %s %s' % (args, ref))
                if got[0] != 0:
                    return 'frontend', 'the Python module used as a library: %s %s' % (got[0], got[2][-300:])
                for x, y in itertools.zip_longest(ref[1].splitlines(), got[1].splitlines()):
                    if x != y:
                        return 'frontend', 'the Python module used as a library gives %r instead of %r' % (y, x)
                count['outputs'] += 1
                count['lines'] += ref[1].count('\n')
                count['models'] += ref[1].count('  model')
                continue
            ref = self.native('frontref', args, {'FRONT_PYTHON': '1'} if front == 'py' else None)
            if ref[0] == 99 or ref[0] == 'timeout':
                raise RuntimeError('reference failed: %s %s' % (args, ref[2]))
            got = self.native('clingo-lpx', args) if front == 'exe' else self.python(args)
            who = 'the executable' if front == 'exe' else 'the Python application'
            if got[0] == 'timeout':
                return 'frontend', who + ' does not end'
            if isinstance(got[0], int) and got[0] < 0:
                return 'frontend', '%s ends with signal %d: %s' % (who, -got[0], got[2][-300:])
            a, b = norm(ref[1]), norm(got[1])
            if 'ERROR' in ref[2]:
                # how much is printed before an error is reported is not specified
                a, b = ('\n'.join(l for l in x.splitlines() if not l.startswith('asp ') and l.strip() and not l.startswith('Solving')) for x in (a, b))
            if a != b:
                la, lb = a.splitlines(), b.splitlines()
                for x, y in itertools.zip_longest(la, lb):
                    if x != y:
                        return 'frontend', '%s prints %r instead of %r' % (who, y, x)
                return 'frontend', who + ' prints other line ends'
            # clingo's Python interface ends the process if validate_options() raises
            validation = front == 'py' and ref[0] == 0 and 'ERROR' in ref[2] and got[0] == 1
            if not validation and got[0] != ref[0]:
                return 'frontend', '%s has exit code %s instead of %s' % (who, got[0], ref[0])
            if wrong(ref[2]) != wrong(got[2]):
                return 'frontend', '%s %s: %s' % (who, 'reports an error' if got[2].strip() else 'does not report an error', (got[2] or ref[2]).strip()[:300])
            count['outputs'] += 1
            count['lines'] += b.count('\n')
            count['models'] += b.count('Assignment:')
        return None


def describe(c):
    name, fs, stdin, args, fronts = c
    return '%s %s%s' % (' '.join(args), ' '.join('[%s: %s]' % x for x in fs), ' [stdin: %s]' % stdin if stdin else '')


def engine(argv):
    out = argv[0]
    a = {}
    for x in argv[1:]:
        k, _, v = x.lstrip('-').partition('=')
        a[k] = v
    todo = list(cases(a['family'], a.get('tier', 'quick')))
    t0 = time.time()
    res = {'jobs_total': len(todo), 'jobs_done': 0, 'capped': False, 'violations': [], 'unconfirmed': [], 'samples': [describe(c) for c in todo[len(todo) // 3::max(1, len(todo) // 3)]][:3]}
    count = {'cases': 0, 'runs': 0, 'outputs': 0, 'lines': 0, 'models': 0}
    lock = threading.Lock()
    only = None
    if 'replay' in a:
        only = int(a['replay'].split(':')[0])
    nxt = [0]
    failed = []

    def work(n):
        w = None
        local = dict.fromkeys(count, 0)
        try:
            w = Worker(out, n)
            while True:
                with lock:
                    i = nxt[0]
                    nxt[0] += 1
                    if i >= len(todo) or failed:
                        break
                    if time.time() - t0 > float(a.get('cap-s', 1e9)):
                        res['capped'] = True
                        break
                if only is not None and i != only:
                    continue
                r = w.case(todo[i], local)
                if r is not None and w.case(todo[i], dict.fromkeys(count, 0)) is not None:
                    with lock:
                        failed.append((i, r))
                    break
                if r is not None:
                    with lock:
                        res['unconfirmed'].append(r[1])
                local['cases'] += 1
        except Exception as e:  # pylint: disable=broad-except
            with lock:
                failed.append((-1, ('engine', repr(e))))
        finally:
            if w is not None:
                w.close()
            with lock:
                for k, v in local.items():
                    count[k] += v

    ws = [threading.Thread(target=work, args=(n,)) for n in range(int(a.get('workers', '8')))]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    for i, r in sorted(failed)[:1]:
        if i < 0:
            print('engine error: ' + r[1], file=sys.stderr)
            return 2
        res['violations'].append({'kind': r[0], 'msg': r[1], 'job': i, 'case': '-', 'describe': describe(todo[i])})
        print('VIOLATION %s: %s\n  in %s' % (r[0], r[1], describe(todo[i])))
    res['jobs_done'] = count['cases']
    res['wall_ms'] = int((time.time() - t0) * 1000)
    res['counters'] = count
    if 'out' in a:
        with open(a['out'], 'w') as f:
            json.dump(res, f)
    else:
        print(json.dumps(res)[:2000])
    return 1 if res['violations'] else 0


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--run':
        sys.exit(engine(sys.argv[2:]))
    print(__doc__)
    sys.exit(2)

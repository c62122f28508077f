"""Runs the Python application like "python -m clingolpx" for the requests on standard input, each in a process of its own."""
import json
import os
import resource
import runpy
import signal
import sys

# loads the library once; the package itself is run afresh in each child
import clingo.application  # noqa: F401
import clingo.ast  # noqa: F401
import clingo.script  # noqa: F401
import clingo.theory  # noqa: F401
import clingolpx  # noqa: F401


def api(file):
    """Runs a script of library calls (one per line, fields separated by tabs) and prints what they return; like api() in src/frontref.cc."""
    # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    from clingo import Control, parse_term
    from clingo.ast import ProgramBuilder, parse_string
    from clingo.symbol import Symbol
    out = sys.stdout.write

    class Slot:
        def __init__(self):
            self.t = self.c = None
            self.look = []
            self.limit = self.models = 0

    def value(v):
        return str(v) if isinstance(v, Symbol) else 'int %d' % v if isinstance(v, int) else 'double'

    def look(s, thread):
        for l in s.look:
            idx = s.t.lookup_symbol(parse_term(l))
            if idx is None:
                out('  look %s: none\n' % l)
                continue
            out('  look %s: %d %s' % (l, idx, s.t.get_symbol(idx)))
            if thread is not None:
                has = s.t.has_value(thread, idx)
                out(' %d %s' % (has, value(s.t.get_value(thread, idx)) if has else '-'))
            out('\n')

    def line(what, v):
        out(''.join(['  ' + what] + [' ' + x for x in v]) + '\n')

    def statistics(s, path):
        if isinstance(s, (int, float)):
            out('  stat %s=%.0f\n' % (path, s))
        elif hasattr(s, 'keys'):
            for k in sorted(s.keys()):
                statistics(s[k], path + '.' + k)
        else:
            for i, x in enumerate(s):
                statistics(x, '%s.%d' % (path, i))

    def solve(s, limit, assumptions):
        s.limit, s.models = limit, 0

        def on_model(m):
            out('  model\n')
            s.t.on_model(m)
            line('shown', sorted(map(str, m.symbols(shown=True))))
            line('theory', sorted(map(str, m.symbols(theory=True))))
            line('assignment', ['%s=%s' % (a, value(b)) for a, b in s.t.assignment(m.thread_id)])
            look(s, m.thread_id)
            s.models += 1
            return s.models != s.limit

        def on_statistics(step, accu):
            s.t.on_statistics(step, accu)
            statistics(step, 'step')
            statistics(accu, 'accu')

        r = s.c.solve(assumptions=assumptions, on_model=on_model, on_statistics=on_statistics)
        out('  result %d %d\n' % (1 if r.satisfiable else 0 if r.unsatisfiable else -1, r.exhausted))

    def command(s, f):
        c = f[0]
        if c == 'new':
            s.t, s.c = clingolpx.ClingoLPXTheory(), Control(f[1:], lambda c, m: None)
        elif c == 'drop':
            s.__init__()
        elif c == 'version':
            out('  %d %d %d\n' % s.t.version())
        elif c == 'conf':
            s.t.configure(f[1], f[2])
        elif c == 'validate':
            s.t.validate_options()
        elif c == 'register':
            s.t.register(s.c)
        elif c == 'add':
            with ProgramBuilder(s.c) as b:
                parse_string(f[1], lambda stm: s.t.rewrite_ast(stm, b.add), logger=lambda c, m: None)
        elif c == 'ground':
            s.c.ground([(f[1], [parse_term(x) for x in f[2:]])])
        elif c == 'prepare':
            s.t.prepare(s.c)
        elif c == 'assign':
            a = s.c.symbolic_atoms[parse_term(f[1])]
            if a is not None and f[2] == 'release':
                s.c.release_external(a.literal)
            elif a is not None:
                s.c.assign_external(a.literal, {'true': True, 'false': False}.get(f[2]))
        elif c == 'look':
            s.look = f[1:]
            look(s, None)
        elif c == 'solve':
            ass = []
            for x in f[2:]:
                a = s.c.symbolic_atoms[parse_term(x.lstrip('-'))]
                if a is not None:
                    ass.append(-a.literal if x[0] == '-' else a.literal)
            solve(s, int(f[1]), ass)
        else:
            raise SystemExit(98)

    slots = {'': Slot()}
    s = slots['']
    with open(file, encoding='utf-8') as h:
        for l in h:
            f = l.rstrip('\n').replace('\x01', '\n').split('\t')
            if f == ['']:
                continue
            out(f[0] + '\n')
            try:
                if f[0] == 'use':
                    s = slots.setdefault(f[1], Slot())
                else:
                    command(s, f)
            except RuntimeError:
                out('  error\n')
                if f[0] != 'conf':
                    break


def child(req):
    for i, f in enumerate((req['stdin'], req['out'], req['err'])):
        fd = os.open(f, os.O_RDONLY if i == 0 else os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, i)
        os.close(fd)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.stdin = os.fdopen(0, 'r', closefd=False)
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    sys.stderr = os.fdopen(2, 'w', buffering=1, errors='backslashreplace', closefd=False)
    os.chdir(req['cwd'])
    signal.alarm(req['limit'])
    sys.argv = ['clingolpx'] + req['args']
    code = 0
    try:
        if req['args'][:1] == ['--api']:
            api(req['args'][1])
        else:
            runpy.run_module('clingolpx', run_name='__main__', alter_sys=True)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 1
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code & 255)


def main():
    reqs = os.fdopen(os.dup(0), 'r')
    answers = os.fdopen(os.dup(1), 'w')
    for line in reqs:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            child(req)
        _, st = os.waitpid(pid, 0)
        answers.write('%d\n' % (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)))
        answers.flush()


main()

"""An SMT solver process driven over a pipe, with the assertion stack kept in
step with the path condition."""
import os
import re
import subprocess
import time

from . import terms as T

COMMANDS = {
    'z3': ['z3-new', '-in', '-smt2'],
    'z3-old': ['z3', '-in', '-smt2'],
    'cvc5': ['cvc5', '--incremental', '--produce-models', '--lang=smt2', '-q',
             '--tlimit-per=20000'],
}

TOKEN = re.compile(r'\|[^|]*\||[()]|[^\s()|]+')


class SolverError(Exception):
    pass


class Solver(object):

    def __init__(self, which='z3', timeout_ms=20000):
        self.which = which
        self.p = subprocess.Popen(
            COMMANDS[which], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, bufsize=-1)
        self.buf = []
        self.stack = []
        self.declared = set()
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, seconds=0.0)
        self.buf.append('(set-option :produce-models true)\n(set-option :global-declarations true)\n')
        if which.startswith('z3'):
            self.buf.append('(set-option :timeout %d)\n' % timeout_ms)
        self.buf.append('(set-logic QF_LIA)\n')

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()

    def declare(self, sym, sort):
        if sym not in self.declared:
            self.declared.add(sym)
            self.buf.append('(declare-fun %s () %s)\n' % (sym, sort))

    def sync(self, pc):
        st = self.stack
        n = min(len(st), len(pc))
        i = 0
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.buf.append('(pop %d)\n' % (len(st) - i))
            del st[i:]
        for t in pc[i:]:
            self.buf.append('(push 1)\n(assert %s)\n' % T.smt(t))
            st.append(t)

    def _line(self):
        line = self.p.stdout.readline()
        if not line:
            raise SolverError('solver %s died' % self.which)
        line = line.decode()
        if line.startswith('(error'):
            raise SolverError(line.strip())
        return line.strip()

    def _flush(self):
        self.p.stdin.write(''.join(self.buf).encode())
        self.p.stdin.flush()
        del self.buf[:]

    def check(self, pc, extra, names):
        """Is pc and extra satisfiable?  `names` is a list of (symbol, sort)
        to read a model for.  Returns (verdict, model)."""
        t0 = time.time()
        for sym, sort in names:
            self.declare(sym, sort)
        self.sync(pc)
        self.buf.append('(push 1)\n(assert %s)\n(check-sat)\n' % T.smt(extra))
        self._flush()
        self.stats['queries'] += 1
        r = self._line()
        model = None
        if r == 'sat':
            self.stats['sat'] += 1
            model = {}
            if names:
                self.buf.append('(get-value (%s))\n' % ' '.join(s for s, _ in names))
                self._flush()
                model = self._read_model()
        elif r == 'unsat':
            self.stats['unsat'] += 1
        elif r in ('unknown', 'timeout'):
            r = 'unknown'
            self.stats['unknown'] += 1
        else:
            raise SolverError('unexpected answer %r' % r)
        self.buf.append('(pop 1)\n')
        self.stats['seconds'] += time.time() - t0
        return r, model

    def _read_model(self):
        depth, toks = 0, []
        while True:
            line = self._line()
            for t in TOKEN.findall(line):
                toks.append(t)
                if t == '(':
                    depth += 1
                elif t == ')':
                    depth -= 1
            if toks and depth == 0:
                break
        model, i = {}, 1
        while toks[i] == '(':
            sym = toks[i + 1]
            i += 2
            if toks[i] == '(':
                val = -int(toks[i + 2])
                i += 4
            else:
                t = toks[i]
                val = True if t == 'true' else False if t == 'false' else int(t)
                i += 1
            assert toks[i] == ')', toks[i:i + 5]
            i += 1
            model[sym] = val
        return model

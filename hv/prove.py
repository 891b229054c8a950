"""Solver front end: z3 first, cvc5 on unknown."""
import re, subprocess, tempfile, time, os
import z3
from .sym import boolv, simp, NOT

class Prover:
    def __init__(self, timeout_ms=20000, cvc5_s=20):
        self.timeout = timeout_ms
        self.cvc5_s = cvc5_s
        self.stats = {'z3': 0, 'cvc5': 0, 'simplifier': 0, 'queries': 0, 'feas_queries': 0, 'solver_s': 0.0, 'feas_s': 0.0}
        self.cache = {}
        self.keep = []
    def _solver(self, pc, extra, timeout):
        s = z3.Solver()
        s.set('timeout', int(timeout))
        for c in pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        return s
    def feasible(self, pc, cond=None, timeout=3000):
        """False only if pc /\\ cond is certainly unsatisfiable"""
        if cond is not None:
            cond = simp(boolv(cond))
            if cond is False:
                return False
            if cond is True:
                cond = None
        if cond is None and not pc:
            return True
        key = (tuple(c.get_id() for c in pc), None if cond is None else cond.get_id())
        if key in self.cache:
            return self.cache[key]
        t = time.time()
        s = self._solver(pc, cond, timeout)
        r = s.check()
        self.stats['feas_queries'] += 1
        self.stats['feas_s'] += time.time() - t
        res = r != z3.unsat
        self.cache[key] = res
        self.keep.append((pc, cond))
        return res
    def model(self, pc, cond=None, timeout=10000):
        s = self._solver(pc, None if cond is None else boolv(cond), timeout)
        if s.check() == z3.sat:
            return s.model()
        return None
    def prove(self, pc, cond, timeout=None, retry=True):
        """-> ('proved', backend) | ('failed', model) | ('unknown', reason)"""
        c = simp(cond if isinstance(cond, bool) else boolv(cond))
        if c is True:
            self.stats['simplifier'] += 1
            return 'proved', 'simplifier'
        neg = NOT(c)
        neg = None if neg is True else neg
        key = ('P', tuple(x.get_id() for x in pc), None if neg is None else neg.get_id())
        if key in self.cache:
            return self.cache[key]
        t = time.time()
        full = timeout or self.timeout
        # portfolio: a short z3 run, cvc5 over the integers (multiplication/division), z3 in full, cvc5 bit-blasting
        first = min(full, 3000) if retry else full
        s = self._solver(pc, neg, first)
        r = s.check()
        self.stats['queries'] += 1
        out = None
        reason = ''
        if r == z3.unknown and retry:
            reason = s.reason_unknown()
            if self.cvc5(s, self.cvc5_s, ['--solve-bv-as-int=sum']) == 'unsat':
                out = ('proved', 'cvc5')
                self.stats['cvc5'] += 1
            elif full > first:
                s = self._solver(pc, neg, full)
                r = s.check()
        if out is not None:
            pass
        elif r == z3.unsat:
            self.stats['z3'] += 1
            out = ('proved', 'z3')
        elif r == z3.sat:
            out = ('failed', s.model())
        elif retry:
            cr = self.cvc5(s, self.cvc5_s, [])
            if cr == 'unsat':
                self.stats['cvc5'] += 1
                out = ('proved', 'cvc5')
            elif cr == 'sat':
                out = ('failed', None)
        if out is None:
            out = ('unknown', s.reason_unknown())
        self.stats['solver_s'] += time.time() - t
        self.cache[key] = out
        self.keep.append((pc, neg))
        return out
    def cvc5(self, s, tmo, opts):
        if not self.cvc5_s:
            return 'unknown'
        txt = '(set-logic ALL)\n' + re.sub(r'bv([us](?:div|rem|mod))_i\b', r'bv\1', s.to_smt2())
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000)] + opts + [f.name], capture_output=True, text=True, timeout=tmo + 10)
            out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
            return out
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

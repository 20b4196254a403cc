"""Development aid (not a check): run the harnesses concretely on random inputs of the unchanged tree, to find oracles
that float rounding can upset.   pypy tools/robust.py C01 [seconds]"""
import importlib
import os
import random
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsx import hapi, runner  # noqa

R = random.Random(int(os.environ.get('SEED', '1')))


BASE = hapi.ConcH


class RandH(BASE):
    grid = 8

    def rnd(self, lo, hi):
        lo = -4 if lo is None else lo
        hi = max(4, lo + 4) if hi is None else hi
        v = R.uniform(float(lo), float(hi))
        if self.grid:
            v = round(v * self.grid) / float(self.grid)
        return min(max(v * float(os.environ.get('SCALE', '1')), float(lo)), float(hi))

    def real(self, name, lo=None, hi=None, default=None):
        if name not in self.env:
            self.env[name] = self.rnd(lo, hi)
        return float(self.env[name])

    def int(self, name, lo=None, hi=None):
        if name not in self.env:
            self.env[name] = R.randint(-4 if lo is None else lo, (lo or 0) + 8 if hi is None else hi)
        return int(self.env[name])

    def bool(self, name):
        return self.env.setdefault(name, R.random() < 0.5)

    def draw_unit(self, name):
        return self.env.setdefault(name, R.random())

    def draw_uniform(self, name, lo, hi):
        self.env.setdefault(name, self.rnd(min(lo, hi), max(lo, hi)))
        return BASE.draw_uniform(self, name, lo, hi)

    def draw_index(self, name, n):
        if n == 1:
            return 0
        return int(self.env.setdefault(name, R.randrange(n))) % n


def main():
    prop = sys.argv[1]
    secs = float(sys.argv[2]) if len(sys.argv) > 2 else 60
    mod = importlib.import_module('harness.' + prop.lower())
    cfgs = list(mod.configs('quick'))
    hapi.ConcH = RandH
    t0 = time.time()
    st = {}
    bad = 0
    while time.time() - t0 < secs and bad < 4:
        RandH.grid = R.choice([1, 2, 8, 0])
        c = R.choice(cfgs)
        r = runner.conc_run(mod, c, {})
        st[r['status']] = st.get(r['status'], 0) + 1
        if r['status'] in ('violation', 'harness-error'):
            bad += 1
            print(prop, r['status'], RandH.grid, c, r['failed'], (r.get('exc') or '')[-700:])
    print(prop, st)


main()

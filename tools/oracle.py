#!/opt/veriftools/pyvenv/bin/python3
"""Compares the companion's oracle (harness/src/fix.rs) with mpmath. Not part of any check. Usage: oracle.py HARNESS"""
import random, subprocess, sys
import mpmath as mp
random.seed(5)
cases = []
def dec(lo, hi, dg): return mp.nstr(mp.mpf(random.uniform(lo, hi)), dg)
for _ in range(1500):
    f = random.choice("pi exp ln sin cos atan asin erf dnorm pnorm pow sqrt".split())
    w = random.choice([20, 60, 130])
    x = {"pi": "0", "exp": dec(-60, 60, 12), "ln": repr(10 ** random.uniform(-60, 60)), "sin": repr(random.uniform(-1, 1) * 10 ** random.uniform(-5, 45)),
         "cos": repr(random.uniform(-1, 1) * 10 ** random.uniform(-5, 45)), "atan": repr(random.uniform(-1, 1) * 10 ** random.uniform(-9, 9)),
         "asin": random.choice([dec(-1, 1, 14), "1", "-1", "0." + "9" * 30, "-0." + "9" * 9]), "erf": dec(-9, 9, 10), "dnorm": dec(-9, 9, 10), "pnorm": dec(-9, 9, 10),
         "pow": repr(10 ** random.uniform(-3, 3)), "sqrt": repr(10 ** random.uniform(-9, 20))}[f]
    x = mp.nstr(mp.mpf(x), 30) if f not in ("asin",) else x
    cases.append((f, w, x, dec(-8, 8, 6)))
out = subprocess.run([sys.argv[1], "oracle"], input="".join("%s %d %s %s\n" % c for c in cases), capture_output=True, text=True).stdout.split("\n")
bad = 0
for (f, w, x, y), o in zip(cases, out):
    mp.mp.dps = w + 150
    X, Y = mp.mpf(x), mp.mpf(y)
    t = {"pi": lambda: +mp.pi, "exp": lambda: mp.exp(X), "ln": lambda: mp.log(X), "sin": lambda: mp.sin(X), "cos": lambda: mp.cos(X), "atan": lambda: mp.atan(X), "asin": lambda: mp.asin(X),
         "erf": lambda: mp.erf(X), "dnorm": lambda: mp.npdf(X), "pnorm": lambda: mp.ncdf(X), "pow": lambda: mp.power(X, Y), "sqrt": lambda: mp.sqrt(X)}[f]()
    if abs(mp.mpf(o) - t) > mp.mpf(10) ** (-w + 4): bad += 1; print(f, w, x, y, o[:60], mp.nstr(t, 50), mp.nstr(abs(mp.mpf(o) - t), 5))
print(len(cases), "compared,", bad, "differ")

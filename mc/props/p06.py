"""P06 the engines' map applies the function to every input, once, in order"""
import numpy as np
from mc import worlds as W

ID = "P06"
LEVEL = "model_checking"
ASSUMPTIONS = ["engines single, numpy, threads, process, multiprocess, default, dask, xarray; 0..9 inputs; 1..4 workers",
               "mpi, ray and cluster engines are not available in the sandbox"]
ENG = ["single", "numpy", "threads", "process", "multiprocess", "default", "dask", "xarray"]


def describe(x, *args, **kw):
    return (type(x).__name__, repr(x), repr(args), repr(sorted(kw.items())))


class Odd(Exception):
    pass


def picky(x, bad=None):
    if x == bad:
        raise Odd(str(x))
    return x * 10


def inputs(kind, n):
    if kind == "int":
        return list(range(n))
    if kind == "str":
        return [chr(97 + i) * (i + 1) for i in range(n)]
    if kind == "mixed":
        return [[1, "a", None, 2.5, (3, 4), [5], {"k": 6}, b"z", True][i] for i in range(n)]
    if kind == "tuple":
        return [(i, str(i)) for i in range(n)]
    if kind == "ragged":
        return [list(range(i)) for i in range(n)]
    if kind == "dict":
        return [{"i": i} for i in range(n)]
    if kind == "arr":
        return [np.arange(i + 1) for i in range(n)]
    if kind == "nd":
        return np.arange(2.0 * n).reshape(n, 2)
    raise KeyError(kind)


KINDS = ["int", "str", "mixed", "tuple", "ragged", "dict", "arr", "nd"]


def cases(tier):
    return [dict(eng=e, procs=p, kind=k) for e in ENG for p in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 8)) for k in KINDS + ["fail"]]


def run(case, ctx):
    kw = dict(n_procs=case["procs"])
    if case["eng"] in ("dask", "xarray"):
        kw["progress_bar"] = False
    ns = range(0, 10) if ctx.tier == "thorough" or case["eng"] in ("single", "numpy", "threads", "dask", "xarray") else (0, 1, 2, 3, 5, 9)
    with W.engine(case["eng"], **kw) as e:
        for n in ns:
            if case["kind"] == "fail":
                for bad in list(range(n)) + [n + 1]:
                    if n > 5 and bad not in (0, n - 1, n + 1):
                        continue
                    ctx.trans += n
                    ctx.state((case["eng"], case["procs"], n, bad))
                    try:
                        r = e.map(picky, list(range(n)), bad=bad)
                        if bad < n:
                            ctx.fail("lost-error", f"{case} n={n}: the error of input {bad} is lost, got {r}")
                        elif list(r) != [10 * i for i in range(n)]:
                            ctx.fail("values", f"{case} n={n}: {r}")
                    except Odd as ex:
                        if bad >= n or str(bad) not in str(ex):
                            ctx.fail("error", f"{case} n={n} bad={bad}: {ex!r}")
                    # the engine works after an error
                    if list(e.map(picky, [4, 5, 6])) != [40, 50, 60]:
                        ctx.fail("after-error", f"{case} n={n} bad={bad}: map fails after an error")
                    ctx.evals += 2
                continue
            inp = inputs(case["kind"], n)
            for args, kws in (((), {}), ((7,), dict(a=[1], b="c"))):
                ref = [describe(x, *args, **kws) for x in inp]
                got = e.map(describe, inp, *args, **kws)
                ctx.evals += 1
                ctx.trans += n
                ctx.state((case["eng"], case["procs"], case["kind"], n, bool(args)))
                if [tuple(g) for g in got] != ref:
                    ctx.fail(f"{case['eng']}|{case['kind']}", f"{case} n={n}: got {list(got)[:3]}, expected {ref[:3]}")

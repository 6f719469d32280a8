"""C31 result tables"""
import itertools, re
from mc.core import Violation

RULE = ("Every list of up to three (thorough four) records over a five-record alphabet (strings with shared prefixes, empty strings, "
        "upper case, numbers negative, large and with many decimals) x six transformations x every ordered selection of one to three "
        "of the fields x search column absent or any string column (also one that is not printed, and one only the transformation "
        "adds) x twelve patterns (anchored, alternatives, empty, matching nothing, dot, escaped, case-sensitive) through print_res; "
        "header cells, row count, row order and every cell of the printed table are compared with the records themselves, records, "
        "the list and the field list must come out as they went in, and printing again must print the same.")

REC = [{"a": "foo", "b": "x.1", "c": 1, "d": 0.125}, {"a": "bar", "b": "y", "c": -20, "d": -3.0}, {"a": "foobar", "b": "", "c": 0, "d": 1234.5678},
       {"a": "Foo", "b": "x", "c": 7, "d": 2.5e-4}, {"a": "b", "b": "xx.", "c": 10 ** 9, "d": 1e3}]
PAT = [None, ".", "foo", "^foo", "o$", "bar|Foo", "", "zzz", r"\.", "x", "^$", "F"]


def upper(r):
    return {k: v.upper() if isinstance(v, str) else v for k, v in r.items()}

def swap(r):
    return dict(r, a=r["b"], b=r["a"])

def extra(r):
    return dict(r, e=r["a"][::-1] + "!", c=r["c"] + 1)

def fresh(r):
    return {"a": r["a"] + "_", "b": "k", "c": None, "d": r["d"] * 2}

FUN = {"none": None, "id": lambda r: r, "upper": upper, "swap": swap, "extra": extra, "fresh": fresh}

def cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for t in itertools.product(range(len(REC)), repeat=n):
            for f in FUN:
                yield dict(recs=list(t), fun=f)

def match(got, want):
    """the value itself, floating-point numbers at least to two decimals"""
    if isinstance(want, float):
        try:
            return abs(float(got) - want) <= 0.0051 + 1e-12 * abs(want)
        except ValueError:
            return False
    return got == str(want)

def same(got, want):
    return len(got) == len(want) and all(len(g) == len(w) and all(map(match, g, w)) for g, w in zip(got, want))

def parse(txt):
    rows = [ln for ln in txt.splitlines() if ln.startswith("|")]
    return [[x.strip() for x in ln.strip()[1:-1].split("|")] for ln in rows]

def run(case, c):
    from mud.examples.examples import print_res
    fun = FUN[case["fun"]]
    names = ["a", "b", "c", "d"] + (["e"] if case["fun"] == "extra" else [])
    picks = [list(p) for k in (1, 2, 3) for p in itertools.permutations(names, k)]
    searches = [None, "a", "b"] + (["e"] if case["fun"] == "extra" else [])
    n = 0
    for si, s in enumerate(searches):
        for pi, pat in enumerate(PAT):
            n += 1
            for k, fields in enumerate(picks):
                # every field selection without a search; with one, every selection occurs with some pattern
                if (s is not None or pat is not None) and len(fields) > 1 and (k + n) % 6:
                    continue
                recs = [dict(REC[i]) for i in case["recs"]]
                before = [dict(r) for r in recs]
                kw = {}
                if s is not None:
                    kw["search"] = s
                if pat is not None:
                    kw["match"] = pat
                if fun is not None:
                    kw["filter_fun"] = fun
                fl = list(fields)
                out = print_res(recs, fl, **kw)
                want = [fields]
                for r in before:
                    q = fun(dict(r)) if fun else r
                    if s is None or re.search("." if pat is None else pat, q[s]) is not None:
                        want.append([q[f] for f in fields])
                what = f"fields {fields}, {kw.keys() and {k2: v for k2, v in kw.items() if k2 != 'filter_fun'}}, transformation {case['fun']}, records {before}"
                if not isinstance(out, str):
                    raise Violation(f"print_res returned {type(out).__name__}: {what}")
                got = parse(out)
                c.true(same(got, want), f"printed {got}, expected {want}: {what}")
                c.true(recs == before and all(x is not y or x == y for x, y in zip(recs, before)) and fl == fields, f"arguments modified: {what}")
                if k == n % len(picks):
                    c.true(print_res(recs, fl, **kw) == out, f"second printing differs: {what}")
                c.state(s, pat, fields, got)
    c.outcome(case["fun"], len(case["recs"]))

"""Projections shared by the drivers."""
import json


def opt(x):
    return [] if x is None else [x]


def cps(s):
    """text -> code points; anything that is not text becomes a value no specification produces"""
    return [ord(c) for c in s] if isinstance(s, str) else [-1]


def ocps(s):
    return [] if s is None else [cps(s)]


def num(x):
    return x if isinstance(x, int) and not isinstance(x, bool) else -999999


def onum(x):
    return [] if x is None else [num(x)]


def st(x):
    return x if isinstance(x, str) else '!not-text!' + type(x).__name__


def ost(x):
    return [] if x is None else [st(x)]


def boolean(x):
    return bool(x)


def pairs(d):
    """dict -> sorted <<key, canonical value>> pairs"""
    return [[st(k), d[k] if isinstance(d[k], str) else json.dumps(d[k], sort_keys=True, default=repr)] for k in sorted(d)]


def exc_name(e):
    """Name of the closest standard exception class (subclasses count as their base)."""
    for c in (ValueError, AssertionError, IndexError, KeyError, TypeError, FileNotFoundError, OSError):
        if isinstance(e, c):
            return c.__name__
    return type(e).__name__


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def tables(text):
    """the tables of scores in what the evaluation script printed: rows of name and four numbers in hundredths of a percent"""
    out, cur = [], None
    for ln in text.split('\n'):
        c = [x.strip() for x in ln.split('|')]
        if len(c) == 5 and c[0] == 'Metrics':
            cur = []
            out.append(cur)
        elif cur is not None and len(c) == 5:
            cur.append([c[0], [int(round(float(x) * 100)) if x else -9999 for x in c[1:]]])
        elif not ln.startswith('-----------+'):
            cur = None
    return out

"""Helpers shared by the property checks."""
from dst.core import Inconclusive, Violation
from dst.seams import BudgetExceeded


def must(fn, what, kind='unexpected-exception'):
    """Runs library code that has to succeed; any exception it lets out is a violation."""
    try:
        return fn()
    except (Violation, BudgetExceeded, Inconclusive):
        raise
    except Exception as e:
        raise Violation(kind, f'{what} raised {type(e).__name__}: {e}') from e


def collect(results, what, kind='unexpected-exception'):
    """Values of scheduler results; exceptions of the tasks become violations."""
    out = []
    for i, (st, v) in enumerate(results):
        if st == 'exc':
            if isinstance(v, (Violation, Inconclusive)):
                raise v
            if not isinstance(v, Exception):
                raise v
            raise Violation(kind, f'{what}, task {i}, raised {type(v).__name__}: {v}') from v
        out.append(v)
    return out


def close(a, b, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))

"""Comparison of a quantity the library integrates with its reference, under several settings (see harness/cpp/agree.h)."""
import math
from pbt import Fail, check, close
import model


def value(s, compute, want, rel, abs_, what, nested=False, known=None):
    values(s, lambda: [compute()], [want], rel, abs_, what, nested, known)


def values(s, compute, want, rel, abs_, what, nested=False, known=None):
    ok = [False] * len(want)
    seen = [[] for _ in want]
    if not isinstance(abs_, (list, tuple)):
        abs_ = [abs_] * len(want)
    try:
        for i, st in enumerate(model.NESTED if nested else model.SETTINGS):
            model.use(st)
            got = list(compute())
            check(len(got) == len(want), '%s: %d values instead of %d' % (what, len(got), len(want)))
            for k in range(len(want)):
                if not ok[k]:
                    if close(got[k], want[k], rel, abs_[k]):
                        ok[k] = True
                    else:
                        seen[k].append(got[k])
            if all(ok):
                if i:
                    s.label('agreed at setting %d' % i)
                return
    finally:
        model.use(model.DEFAULT)
    k = ok.index(False)
    raise Fail('%s%s: got %s (at successively tighter tolerances), expected %r' % (what, ' (entry %d)' % k if len(want) > 1 else '',
                                                                              ', '.join(map(repr, seen[k])), float(want[k])))

"""Greedy minimisation of a JSON document under a predicate."""
import copy
import json


def paths(doc, path=()):
    """every node, outermost first"""
    yield path, doc
    if isinstance(doc, dict):
        for k in sorted(doc):
            yield from paths(doc[k], path + (k,))
    elif isinstance(doc, list):
        for i, x in enumerate(doc):
            yield from paths(x, path + (i,))


def get(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def put(doc, path, val):
    d = copy.deepcopy(doc)
    if not path:
        return val
    p = d
    for k in path[:-1]:
        p = p[k]
    p[path[-1]] = val
    return d


def size(doc):
    return len(json.dumps(doc))


def shrink(case, test, budget):
    """test(case) -> True if it still fails the same way.  budget(): may we go on?"""
    best = case
    changed = True
    rounds = 0
    while changed and budget() and rounds < 6:
        changed = False
        rounds += 1
        # 1. lists: drop chunks, largest lists first
        todo = sorted([(p, len(x)) for p, x in paths(best) if isinstance(x, list) and x], key=lambda t: (len(t[0]), -t[1]))
        for p, _ in todo:
            try:
                lst = get(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = len(lst)
            while n >= 1 and budget():
                i = 0
                while i < len(lst) and budget():
                    cand = lst[:i] + lst[i + n:]
                    c = put(best, p, cand)
                    if test(c):
                        best, lst, changed = c, cand, True
                    else:
                        i += n
                n //= 2
            if not budget():
                return best
        # 2. dictionaries: drop keys
        for p, x in list(paths(best)):
            if isinstance(x, dict) and len(p) < 6:
                for k in sorted(x):
                    if not budget():
                        return best
                    try:
                        d = dict(get(best, p))
                    except (KeyError, IndexError, TypeError):
                        break
                    if k not in d:
                        continue
                    del d[k]
                    c = put(best, p, d)
                    if test(c):
                        best, changed = c, True
        # 3. scalars
        for p, x in list(paths(best)):
            if not budget():
                return best
            try:
                x = get(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            cands = []
            if isinstance(x, bool):
                continue
            if isinstance(x, int) and x not in (0, 1):
                cands = [0, 1, x // 2, x - 1 if x > 0 else x + 1]
            elif isinstance(x, float) and x != 0:
                cands = [0.0, 0.5]
            elif isinstance(x, str) and len(x) > 1:
                cands = [x[:len(x) // 2], x[len(x) // 2:], x[:-1]]
            for cand in cands:
                c = put(best, p, cand)
                if test(c):
                    best, changed = c, True
                    break
    return best

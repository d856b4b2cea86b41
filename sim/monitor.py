"""Control over the execution of xlrd's own code: counting, bounding and interrupting it at
deterministic points, through sys.monitoring events on xlrd's code objects only."""
import sys
import types

mon = sys.monitoring
TOOL = 3
EV = mon.events
CODES = []
STATE = {'cb': None}


def walk(obj, seen, out):
    if isinstance(obj, types.CodeType):
        if obj in seen:
            return
        seen.add(obj)
        out.append(obj)
        for c in obj.co_consts:
            if isinstance(c, types.CodeType):
                walk(c, seen, out)
        return
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, types.FunctionType):
        walk(obj.__code__, seen, out)
        for cell in obj.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, (types.FunctionType, type)):
                walk(v, seen, out)
        w = getattr(obj, '__wrapped__', None)
        if w is not None:
            walk(w, seen, out)
    elif isinstance(obj, type):
        for v in list(vars(obj).values()):
            walk(v, seen, out)
    elif isinstance(obj, (staticmethod, classmethod)):
        walk(obj.__func__, seen, out)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                walk(f, seen, out)
    elif hasattr(obj, '__wrapped__'):
        walk(obj.__wrapped__, seen, out)


def setup():
    if CODES:
        return
    mon.use_tool_id(TOOL, 'xlrdsim')
    seen = set()
    for name, m in sorted(sys.modules.items()):
        if m is None or not (name == 'xlrd' or name.startswith('xlrd.')):
            continue
        for v in list(vars(m).values()):
            mod = getattr(v, '__module__', None)
            if isinstance(mod, str) and (mod == 'xlrd' or mod.startswith('xlrd.')) or isinstance(v, (staticmethod, classmethod, property)):
                walk(v, seen, CODES)


def _set(events):
    for c in CODES:
        mon.set_local_events(TOOL, c, events)


class Watch(object):
    """with Watch('line', fn): fn(code, x) is called at each event.

    kinds: 'line' (every source line started), 'instr' (every bytecode), 'step' (loops and calls)."""
    KINDS = {'line': EV.LINE, 'instr': EV.INSTRUCTION, 'step': EV.JUMP | EV.PY_START | EV.PY_RESUME}

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn

    def __enter__(self):
        fn = self.fn
        ev = self.KINDS[self.kind]
        if self.kind == 'step':
            mon.register_callback(TOOL, EV.JUMP, lambda code, a, b: fn(code, a))
            mon.register_callback(TOOL, EV.PY_START, lambda code, a: fn(code, a))
            mon.register_callback(TOOL, EV.PY_RESUME, lambda code, a: fn(code, a))
        else:
            mon.register_callback(TOOL, ev, fn)
        self.ev = ev
        _set(ev)
        return self

    def __exit__(self, *exc):
        _set(0)
        for e in (EV.JUMP, EV.PY_START, EV.PY_RESUME, EV.LINE, EV.INSTRUCTION):
            if self.ev & e:
                mon.register_callback(TOOL, e, None)
        return False


class BudgetExceeded(BaseException):
    pass


class Budget(Watch):
    """At most `limit` loop iterations and calls."""

    def __init__(self, limit):
        self.limit, self.n, self.hit = limit, 0, None

        def fn(code, x):
            self.n += 1
            if self.n > self.limit and self.hit is None:
                self.hit = code.co_qualname
                raise BudgetExceeded('more than %d steps, in %s' % (self.limit, code.co_qualname))
        Watch.__init__(self, 'step', fn)


class Lines(Watch):
    """Counts lines; raises `exc` at the start of the k-th (from 1)."""

    def __init__(self, k=None, exc=None, kind='line'):
        self.n, self.k, self.where = 0, k, None

        def fn(code, x):
            self.n += 1
            if self.n == k:
                self.where = '%s+%d' % (code.co_qualname, x - code.co_firstlineno if kind == 'line' else x)
                raise exc
        Watch.__init__(self, kind, fn)

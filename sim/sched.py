"""Real threads, one of which runs at a time; which, and for how many steps of xlrd code, is decided by the
segments of the case."""
import _thread
import threading

from . import monitor, world

CUR = None


def gate():
    lk = _thread.allocate_lock()
    lk.acquire()
    return lk


class Killed(BaseException):
    """unwinds a thread that the case abandoned"""


class Sched(object):
    def __init__(self, thunks, segments, kind='line', interrupts=(), abandon=()):
        """segments: [[thread, steps], ...], cycled.  interrupts: [[thread, step, exception name], ...].
        abandon: [[thread, step], ...]: from that step on the thread never runs again."""
        self.n = len(thunks)
        self.thunks = thunks
        self.segs = [(t % self.n, max(1, k)) for t, k in segments] or [(0, 1000)]
        self.kind = kind
        self.seg = 0
        self.left = 0
        self.switches = 0
        self.trace = 0
        self.done = [False] * self.n
        self.dead = [False] * self.n
        self.steps = [0] * self.n
        self.results = [None] * self.n
        self.intr = {(t % self.n, s): e for t, s, e in interrupts}
        self.aband = {t % self.n: s for t, s in abandon}
        self.sems = [gate() for _ in thunks]
        self.main = gate()
        self.ids = {}
        self.killing = False
        self.fired = []
        self.cur = None

    def mine(self):
        return threading.get_ident() in self.ids

    def pick(self):
        """the next thread to run, or None"""
        alive = [i for i in range(self.n) if not self.done[i] and not self.dead[i]]
        if not alive:
            return None
        for _ in range(len(self.segs)):
            t, k = self.segs[self.seg % len(self.segs)]
            self.seg += 1
            if t in alive:
                self.left = k
                return t
        self.left = self.segs[self.seg % len(self.segs)][1]
        return alive[0]

    def step(self, code=None, x=None, force=False):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        if self.killing:
            if self.dead[me] == 1:
                self.dead[me] = 2
                raise Killed()
            return
        self.steps[me] += 1
        if self.aband.get(me) == self.steps[me]:
            self.dead[me] = 1
            self.fired.append('abandon')
            self.handover(me)
            if self.killing and self.dead[me] == 1:
                self.dead[me] = 2
                raise Killed()
        self.left -= 1
        if self.left <= 0 or force:
            self.handover(me)
        e = self.intr.pop((me, self.steps[me]), None)
        if e is not None:
            self.fired.append('interrupt:' + e)
            raise world.make_error(e)

    def handover(self, me):
        t = self.pick()
        if t == me:
            return
        self.switches += 1
        self.trace = (self.trace * 1000003 + (0 if t is None else t + 1) * 31 + self.steps[me]) & 0xFFFFFFFFFFFF
        if t is None:
            self.main.release()
        else:
            self.sems[t].release()
        if not self.done[me]:
            self.sems[me].acquire()

    def body(self, i):
        self.sems[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            self.results[i] = ('ok', self.thunks[i]())
        except Killed:
            self.results[i] = ('killed', None)
        except BaseException as e:
            self.results[i] = ('exc', e)
        self.ids.pop(threading.get_ident(), None)
        self.done[i] = True
        if not self.killing:
            self.handover(i)

    def run(self):
        global CUR
        CUR = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        try:
            with monitor.Watch(self.kind, self.step):
                t = self.pick()
                self.sems[t].release()
                self.main.acquire()
                self.killing = True
                for i in range(self.n):
                    if self.dead[i] and not self.done[i]:
                        self.sems[i].release()
                    ts[i].join()
        finally:
            CUR = None
        return self.results

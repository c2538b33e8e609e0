"""Cooperative scheduler: threads of the code under test run as greenlets, every blocking or communicating call is a
scheduling point, and explore() enumerates every choice sequence (depth-first, re-executing from the start)."""
import greenlet

CUR = [None]


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.done = False
        self.error = None
        self.result = None
        self.blocked = None  # predicate that must become true
        self.timed = False  # a timed wait: may also proceed without it
        self.spin = 0


class Run:
    """One execution following a prefix of choices, then first choices."""

    def __init__(self, prefix, fair=3):
        self.prefix, self.taken, self.width = list(prefix), [], []
        self.tasks = []
        self.log = []
        self.fair = fair
        self.steps = 0
        self.dead = False

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(c)
        self.width.append(n)
        return c

    def spawn(self, name, fn):
        t = Task(name, fn)

        def body():
            try:
                t.result = fn()
            except Killed:
                pass
            except BaseException as exc:  # noqa: B902
                t.error = exc
            t.done = True

        t.glet = greenlet.greenlet(body, parent=self.hub)
        self.tasks.append(t)
        return t

    def point(self, label, until=None, timed=False):
        """Scheduling point of the current task; waits until the predicate holds (or may time out)."""
        t = self.current
        self.log.append((t.name, label))
        t.blocked, t.timed = until, timed
        self.hub.switch()
        if self.dead:
            raise Killed()
        t.blocked = None
        return until is None or until()

    def run(self, main):
        self.hub = greenlet.getcurrent()
        CUR[0] = self
        try:
            m = self.spawn("main", main)
            last = None
            while not all(t.done for t in self.tasks):
                en = [t for t in self.tasks if not t.done and (t.blocked is None or t.timed or t.blocked())]
                if not en:
                    raise Deadlock("deadlock: %s" % [(t.name, self.log[-4:]) for t in self.tasks if not t.done])
                fair = [t for t in en if t.spin < self.fair]
                if not fair:
                    for t in en:
                        t.spin = 0
                    fair = en
                if last in fair:  # choice 0 continues the running task
                    fair = [last] + [t for t in fair if t is not last]
                t = fair[self.choose(len(fair))]
                for o in self.tasks:
                    if o is not t:
                        o.spin = 0
                t.spin += 1 if len(en) > 1 else 0
                self.current = last = t
                self.steps += 1
                if self.steps > 3000:
                    raise Deadlock("no progress after 3000 steps: %s" % self.log[-6:])
                t.glet.switch()
            return m
        finally:
            self.dead = True
            for t in self.tasks:
                if not t.done and t.glet:
                    try:
                        self.current = t
                        t.glet.throw(Killed)
                    except BaseException:  # noqa: B902
                        pass
            CUR[0] = None


def explore(execute, limit=200000, fair=3, max_depth=10 ** 6):
    """Calls execute(run) for every schedule; yields nothing, returns the number of executions."""
    prefix, n = [], 0
    while True:
        r = Run(prefix, fair)
        execute(r)
        n += 1
        if n >= limit:
            raise RuntimeError("more than %d schedules" % limit)
        k = min(len(r.taken), max_depth)
        while k and r.taken[k - 1] + 1 >= r.width[k - 1]:
            k -= 1
        if not k:
            return n
        prefix = r.taken[: k - 1] + [r.taken[k - 1] + 1]


class Queue:
    def __init__(self, maxsize=0):
        self.items = []
        self.maxsize = maxsize

    def put(self, x, block=True, timeout=None):
        CUR[0].point("put")
        self.items.append(x)

    put_nowait = put

    def empty(self):
        CUR[0].point("empty")
        return not self.items

    def qsize(self):
        CUR[0].point("qsize")
        return len(self.items)

    def get(self, block=True, timeout=None):
        import queue

        if block:
            CUR[0].point("get", lambda: bool(self.items), timed=timeout is not None)
        else:
            CUR[0].point("get")
        if not self.items:
            raise queue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass


SimpleQueue = Queue


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        CUR[0].point("set")
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        CUR[0].point("is_set")
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        CUR[0].point("wait", lambda: self.flag, timed=timeout is not None)
        return self.flag


class Thread:
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name or "monitor%d" % len(CUR[0].tasks)
        self._task = None

    def run(self):
        return self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task:
            raise RuntimeError("threads can only be started once")
        self._task = CUR[0].spawn(self.name, self.run)
        CUR[0].point("start")

    def join(self, timeout=None):
        if not self._task:
            raise RuntimeError("cannot join thread before it is started")
        CUR[0].point("join", lambda: self._task.done, timed=timeout is not None)

    def is_alive(self):
        return bool(self._task) and not self._task.done

    def setDaemon(self, d):
        self.daemon = d

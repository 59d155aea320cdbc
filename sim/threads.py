"""Simulated concurrency: real threads of which exactly one runs at any time.

Control passes between threads only at the start of a source line of the library; which thread runs next
is drawn from the seed.  A task can be struck by an injected failure at its n-th line.
"""
import random, threading
import core
from core import fired, probe, STAT


class Injected(RuntimeError):
    """The failure injected into a task."""


class Baton:
    def __init__(self, tasks, policy, inject=None, budget=4_000_000):
        """tasks: callables; policy: dict(s, p) or dict(s, at=[global step numbers]); inject: {task index: line}"""
        self.n = len(tasks)
        self.tasks = tasks
        self.r = random.Random(policy['s'])
        self.p = policy.get('p', 0.0)
        self.at = sorted(policy.get('at', ()))
        self.at = [] if self.p else self.at
        self.atset = set(self.at)
        self.inject = dict(inject or {})
        self.sem = [threading.Semaphore(0) for _ in tasks]
        self.turn = None
        self.live = set(range(self.n))
        self.blocked = set()
        self.lines = [0] * self.n
        self.total = 0
        self.budget = budget
        self.switches = 0
        self.ids = {}
        self.over = threading.Event()
        self.out = [None] * self.n
        self.kill = False
        self.trace = []
        self.recovered = 0

    # called by the running thread at each library line
    def __call__(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        if me in self.blocked or self.turn != me:       # comes out of a real lock after the baton went on
            self.blocked.discard(me)
            self.sem[me].acquire()
        if self.kill:
            raise core.SimKill()
        self.total += 1
        k = self.lines[me]
        self.lines[me] = k + 1
        if self.total > self.budget:
            self.kill = True
            raise core.SimKill()
        if self.inject.get(me) == k:
            fired('task_struck')
            raise Injected('injected failure')
        others = [j for j in sorted(self.live) if j != me and j not in self.blocked]
        if others and (self.r.random() < self.p if self.p else self.total in self.atset):
            j = self.r.choice(others)
            self.switches += 1
            if len(self.trace) < 4000:
                self.trace.append((me, k, j))
            self._pass(j)
            self.sem[me].acquire()
            if self.kill:
                raise core.SimKill()

    def _pass(self, j):
        self.turn = j
        self.sem[j].release()

    def _body(self, i):
        self.ids[threading.get_ident()] = i
        self.sem[i].acquire()
        try:
            if not self.kill:
                self.out[i] = ('ok', self.tasks[i]())
        except core.SimKill:
            self.out[i] = ('killed', None)
        except BaseException as e:
            self.out[i] = ('raise', core._strip(e))
        self.live.discard(i)
        self.blocked.discard(i)
        if self.turn == i or self.turn is None:
            rest = [j for j in sorted(self.live) if j not in self.blocked] or sorted(self.live)
            if rest:
                self._pass(self.r.choice(rest))
        if not self.live:
            self.over.set()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        prev = core._hook
        core.set_line_hook(self)
        try:
            for t in ts:
                t.start()
            self._pass(self.r.choice(range(self.n)))
            seen = -1
            while not self.over.wait(4.0):
                if self.total != seen:
                    seen = self.total
                    continue
                # the holder of the baton waits in a real lock that another simulated thread holds
                rest = [j for j in sorted(self.live) if j != self.turn and j not in self.blocked]
                if not rest:
                    raise core.Violation('deadlock', 'no task makes progress any more; %s are waiting' % sorted(self.live))
                self.blocked.add(self.turn)
                self.recovered += 1
                self._pass(rest[0])
        finally:
            core.set_line_hook(prev)
        STAT['steps'] += self.total
        STAT['context_switches'] += self.switches
        if self.kill:
            raise core.Violation('hang', 'the tasks do not finish within %d steps' % self.budget)
        return self.out

"""A deterministic scheduler for real threads: one baton, handed over only at line (or bytecode) events of the code under test,
as the plan says: [[events, task], ..] = after that many events of whoever runs, `task` goes on.  When the list is used up every
task runs to its end in turn."""
import io
import sys
import threading
from .world import CODE

STALL = 3.0


class Buffers(io.TextIOBase):
    """sys.stdout of all tasks"""

    def __init__(self):
        self.of = threading.local()

    def use(self, buf):
        self.of.buf = buf

    def write(self, s):
        b = getattr(self.of, 'buf', None)
        if b is not None:
            b.write(s)
        return len(s)


class Sched:
    def __init__(self, switches, fine=False, inject=None):
        """inject: {task: (event number of that task, exception class)}"""
        self.switches = list(switches)
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.fine = fine
        self.inject = inject or {}
        self.events = []
        self.total = 0
        self.cur = None
        self.sem = []
        self.done = []
        self.finished = threading.Semaphore(0)
        self.taken = []           # (task, event count of that task) at each switch that happened
        self.where = set()
        self.stalls = 0
        self.local = threading.local()
        self.injected = {}

    # called in the task's thread
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CODE):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self.step

    def step(self, frame, event, arg):
        if event == ('opcode' if self.fine else 'line'):
            self.tick(frame)
        return self.step

    def tick(self, frame):
        me = self.local.me
        self.total += 1
        self.events[me] += 1
        inj = self.inject.get(me)
        if inj and self.events[me] >= inj[0] and me not in self.injected:
            self.injected[me] = True
            raise inj[1]()
        if self.left is None or self.cur != me:
            return
        self.left -= 1
        if self.left > 0:
            return
        to = self.switches[self.pos][1] % len(self.sem)
        self.pos += 1
        self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None
        if to != me and not self.done[to]:
            self.taken.append((me, self.events[me], to))
            self.where.add((frame.f_code.co_name, frame.f_lineno))
            self.cur = to
            self.sem[to].release()
            self.sem[me].acquire()

    def run(self, tasks):
        n = len(tasks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.events = [0] * n

        def body(i, fn):
            self.local.me = i
            self.sem[i].acquire()
            sys.settrace(self.trace)
            try:
                fn()
            finally:
                sys.settrace(None)
                self.done[i] = True
                if self.cur == i:
                    nxt = next((j % n for j in range(i + 1, i + n) if not self.done[j % n]), None)
                    self.cur = nxt
                    if nxt is not None:
                        self.sem[nxt].release()
                self.finished.release()
        threads = [threading.Thread(target=body, args=(i, fn), daemon=True) for i, fn in enumerate(tasks)]
        for t in threads:
            t.start()
        self.cur = 0
        self.sem[0].release()
        left = n
        last = -1
        while left:
            if self.finished.acquire(timeout=STALL):
                left -= 1
                continue
            if self.total == last:
                # the running task waits for something another one holds: let the next one run too
                self.stalls += 1
                nxt = next((j for j in range(n) if j != self.cur and not self.done[j]), None)
                if nxt is not None:
                    self.cur = nxt
                    self.sem[nxt].release()
            last = self.total
        for t in threads:
            t.join()



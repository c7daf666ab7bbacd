"""controlled scheduler for real threads: the bodies run one at a time; at every line (or call) inside of the code under test the
explorer decides whether to preempt. A body that sleeps (on a lock held by another one) is noticed by its thread's state, and the other goes on."""
import os
import sys
import threading

from mc.engine import Violation

REPO = os.environ.get('VERIF_REPO', '/repo')


class Abort(BaseException):
    pass


class Scheduler(object):
    def __init__(self, c, bodies, grain='line', extra=(), offer=None):
        self.c, self.bodies, self.grain = c, bodies, grain
        self.roots = tuple([os.path.join(REPO, 'pyswagger') + os.sep] + list(extra))
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.results = [None] * n
        self.turn = None
        self.progress = 0
        self.done = threading.Semaphore(0)
        self.error = None
        self.dead = False
        self.switches = 0
        self.tids = [None] * n
        self.offer = offer          # offer(i, k): may thread i be preempted at its k-th point?
        self.count = [0] * n

    # -- called by the bodies ----------------------------------------------
    def point(self, i, frame):
        self.progress += 1
        if self.dead:
            raise Abort()
        while self.turn != i:
            self.sems[i].acquire()
            if self.dead:
                raise Abort()
        others = [j for j in range(len(self.bodies)) if self.alive[j] and j != i]
        k = self.count[i]
        self.count[i] += 1
        if not others or (self.offer is not None and not self.offer(i, k)):
            return
        try:
            ch = self.c.pick('thread %d at %s:%d' % (i, os.path.basename(frame.f_code.co_filename), frame.f_lineno), [i] + others)
        except BaseException as e:      # noqa
            self.error = e
            self.stop()
            raise Abort()
        if ch != i:
            self.switches += 1
            self.give(ch)
            while self.turn != i:
                self.sems[i].acquire()
                if self.dead:
                    raise Abort()

    def give(self, j):
        self.turn = j
        self.sems[j].release()

    def stop(self):
        self.dead = True
        for s in self.sems:
            s.release()
        self.done.release()

    def tracer(self, i):
        def local(frame, event, arg):
            if event == 'line':
                self.point(i, frame)
            return local

        def on_call(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.roots):
                if self.grain == 'call':
                    self.point(i, frame)
                    return None
                return local
            return None
        return on_call

    def sleeping(self, i):
        try:
            with open('/proc/self/task/%d/stat' % self.tids[i]) as f:
                return f.read().rsplit(')', 1)[1].split()[0] == 'S'
        except (OSError, TypeError):
            return False

    def run_body(self, i):
        self.tids[i] = threading.get_native_id()
        while self.turn != i:
            self.sems[i].acquire()
        if self.dead:
            return
        sys.settrace(self.tracer(i))
        try:
            try:
                r = ('ok', self.bodies[i]())
            finally:
                sys.settrace(None)
        except Abort:
            return
        except Exception as e:      # noqa
            r = ('raises', type(e).__name__, str(e))
        self.results[i] = r
        self.alive[i] = False
        self.progress += 1
        left = [j for j in range(len(self.bodies)) if self.alive[j]]
        if self.turn == i and left:
            try:
                self.give(self.c.free('next', left))
            except BaseException as e:      # noqa
                self.error = e
                self.stop()
        elif not left:
            self.done.release()

    def run(self):
        ts = []
        for i in range(len(self.bodies)):
            t = threading.Thread(target=self.run_body, args=(i,))
            t.daemon = True
            t.start()
            ts.append(t)
        self.give(self.c.free('first', range(len(self.bodies))))
        last, idle, stuck = -1, 0, 0
        while not self.done.acquire(timeout=0.05):
            if self.progress != last or not self.sleeping(self.turn):
                last, idle = self.progress, 0
                continue
            idle += 1
            if idle < 8:
                continue
            # the running one waits for something held by another one
            idle = 0
            stuck += 1
            others = [j for j in range(len(self.bodies)) if self.alive[j] and j != self.turn]
            if not others or stuck > 200:
                self.stop()
                raise Violation('threads wait for each other: none makes progress', 'deadlock')
            self.give(others[stuck % len(others)])
        for t in ts:
            t.join(5)
        if self.error is not None:
            raise self.error
        return self.results

"""Controlled scheduler: runs tasks in real threads, one at a time, switching exactly at chosen line (or bytecode) events inside the package under test."""
import sys
import threading


class Schedule:
    """segments: [(task, events)]; a task is preempted after that many events, an unfinished task continues after the last segment, in order."""

    def __init__(self, tasks, segments, root, opcodes=False):
        self.tasks, self.root, self.opcodes = tasks, root, opcodes
        self.segments = list(segments)
        self.sem = [threading.Semaphore(0) for _ in tasks]
        self.done = [False] * len(tasks)
        self.events = [0] * len(tasks)
        self.results = [None] * len(tasks)
        self.left = -1  # events until the preemption, negative: none
        self.over = threading.Semaphore(0)

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.tasks))]
        for t in threads:
            t.start()
        self.hand_over(-1)
        self.over.acquire()
        for t in threads:
            t.join()
        return self.results

    def hand_over(self, me):
        """Chooses who runs next. -> False when it is the caller itself."""
        nxt = None
        while self.segments:
            i, n = self.segments.pop(0)
            if not self.done[i] and n:
                nxt, self.left = i, n
                break
        if nxt is None:
            self.left = -1
            rest = [i for i, d in enumerate(self.done) if not d]
            if not rest:
                self.over.release()
                return True
            nxt = rest[0]
        if nxt == me:
            return False
        self.sem[nxt].release()
        return True

    def body(self, i):
        self.sem[i].acquire()
        kind = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == kind:
                self.events[i] += 1
                if self.left > 0:
                    self.left -= 1
                    if self.left == 0 and self.hand_over(i):
                        self.sem[i].acquire()
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        sys.settrace(trace)
        try:
            self.results[i] = ("ok", self.tasks[i]())
        except BaseException as e:
            sys.settrace(None)
            self.results[i] = ("raised", repr(e))
        finally:
            sys.settrace(None)
        self.done[i] = True
        self.hand_over(-1)

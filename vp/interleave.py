"""Schedules chosen, not hoped for: one call is stopped at a chosen line (or bytecode) of the code under test while another
thread makes another call, and then goes on."""
import queue, sys, threading
from . import core


class Other:
    """A thread that makes calls when told to."""
    def __init__(self, ask):
        self.ask, self.todo, self.done = ask, queue.SimpleQueue(), queue.SimpleQueue()
        threading.Thread(target=self.work, daemon=True).start()

    def work(self):
        while True:
            call = self.todo.get()
            if call is None: return
            self.done.put(self.ask(call))

    def start(self, call): self.todo.put(call)

    def wait(self, seconds):
        try: return self.done.get(timeout=seconds)
        except queue.Empty: return None

    def close(self): self.todo.put(None)


def stopping(ask, call, other, k, meanwhile, fine, root):
    """The answers of call, stopped before its k-th step in the code under root, and of the call made meanwhile (None if it was never made), and the number of steps."""
    n, got, pending = 0, [None], [False]

    def step():
        nonlocal n
        n += 1
        if n == k:
            other.start(meanwhile)
            # a call that waits for a lock the stopped one holds goes on later
            got[0] = other.wait(0.3)
            pending[0] = got[0] is None

    def local(frame, event, arg):
        if event == ('opcode' if fine else 'line'): step()
        return local

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root): return None
        if fine: frame.f_trace_opcodes = True; frame.f_trace_lines = False
        return local

    old = sys.gettrace()
    sys.settrace(trace)
    try: answer = ask(call)
    finally: sys.settrace(old)
    if pending[0]:
        got[0] = other.wait(20)
        if got[0] is None: raise core.Violation('a call made while another was under way never ended')
    return answer, got[0], n

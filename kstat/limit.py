"""A time limit on a piece of the analysis: what takes longer is left undecided, never an alarm and never a check without an answer."""
import ctypes
import threading
import time


class TooLong(BaseException):
    pass


def limited(seconds, run):
    """True if `run()` finished within the limit (run in the calling thread)."""
    mine = type("TooLong", (TooLong,), {})
    tid = threading.get_ident()
    state = {"done": False}
    lock = threading.Lock()

    def fire():
        with lock:
            if not state["done"]:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(mine))
    if seconds <= 0:
        return False
    timer = threading.Timer(seconds, fire)
    timer.daemon = True
    timer.start()
    try:
        run()
        with lock:
            state["done"] = True
        return True
    except mine:
        return False
    finally:
        with lock:
            state["done"] = True
        timer.cancel()


class Clock:
    """Time left of the whole check."""

    def __init__(self, total):
        self.end = time.monotonic() + total

    def left(self, most):
        return max(0.0, min(most, self.end - time.monotonic()))

"""Work inside C functions of the interpreter (copies of lists and strings) shows only in time: the CPU time of a run on a long input
against that on one a sixteenth as long. Linear work gives a ratio near 16, quadratic work one near 256; the verdict
asks for a ratio and a time that no linear run comes near, several times in a row."""
import gc
import time

TIMES = 16


def cpu(make, run):
    args = make()
    gc.collect()
    gc.disable()
    try:
        t = time.process_time()
        try:
            run(*args)
        except Exception:
            pass
        return time.process_time() - t
    finally:
        gc.enable()


def compare(make_short, make_long, run, floor, ratio=48, tries=4):
    """(seconds short, seconds long, verdict: True when linear)"""
    for k in range(tries):
        big = cpu(make_long, run)
        if big < floor:
            return 0.0, big, True
        small = max(min(cpu(make_short, run) for _ in range(2)), 1e-4)
        if big <= ratio * small:
            return small, big, True
    return small, big, False

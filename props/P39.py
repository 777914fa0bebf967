import copy
import io
import os
import resource
import signal

from lib import fmts, gen, refmk
from lib.cmds import *

ID = "P39"
LEVEL = "fault_enumeration"
SOURCES = sorted(refmk.BUILDERS)
RULE = (
    "random designs written in every format, and files of %d format variants read, with one fault injected: the k-th call of the stream (write, seek, tell, read) raises OSError - every k for short "
    "sequences, else 40 of them with the first and last - or the real file system refuses: a full device (/dev/full), a file size limit at every kind of byte, a missing directory, a directory in place of "
    "the file - or a file is damaged, or its reader fails; oracle: the error (the very same object for streams) reaches the caller, design, threads, metadata and options are as before, no descriptor stays open, and the operation repeated without the "
    "fault gives the bytes or the pattern it gave before it; non-trivial = a fault that struck; distinct by (format, bytes, place of the fault)" % len(SOURCES))
ASSUMPTIONS = ["faults are raised as OSError or as an error of the caller's own stream; what a refused write leaves in the file is not compared",
               "dates of JEF files are given; threads the library makes up are seeded"]
MIN_EVENTS = {"faults": 120000, "file_faults": 15000, "repeats": 8000, "damaged_errors": 800, "reader_errors": 8000}


class Fault(OSError):
    pass


class OwnFault(Exception):
    """an error of the caller's stream that is no OSError"""


class Faulty:
    """a stream over another that fails at its k-th call"""

    def __init__(self, inner, at=None, error=None):
        self.inner, self.at, self.error = inner, at, error
        self.calls = 0
        self.struck = 0

    def hit(self):
        self.calls += 1
        if self.calls == self.at:
            self.struck += 1
            raise self.error

    def write(self, b):
        self.hit()
        return self.inner.write(b)

    def read(self, *a):
        self.hit()
        return self.inner.read(*a)

    def readline(self, *a):
        self.hit()
        return self.inner.readline(*a)

    def readlines(self, *a):
        self.hit()
        return self.inner.readlines(*a)

    def seek(self, *a):
        self.hit()
        return self.inner.seek(*a)

    def tell(self):
        self.hit()
        return self.inner.tell()

    def flush(self):
        return self.inner.flush()

    def __iter__(self):
        return self

    def __next__(self):
        self.hit()
        return next(self.inner)

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    @property
    def closed(self):
        return False


def snap(p):
    return ([tuple(r) for r in p.stitches], [(id(t), sorted((k, repr(v)) for k, v in vars(t).items())) for t in p.threadlist],
            sorted((repr(k), repr(v)) for k, v in p.extras.items()))


def content(p):
    return ([tuple(r) for r in p.stitches], [t and sorted((k, repr(v)) for k, v in vars(t).items()) for t in p.threadlist], sorted((repr(k), repr(v)) for k, v in p.extras.items()))


def descriptors():
    return sorted(os.listdir("/proc/self/fd"))


def cases(tier):
    n = len(fmts.W) * 2 + len(SOURCES)
    return 120 * n if tier == "quick" else 4000 * n


def places(rng, n, most=40):
    if n <= most:
        return list(range(1, n + 1))
    return sorted({1, 2, n - 1, n} | {rng.randint(1, n) for _ in range(most - 4)})


def struck_by(mon, call, error, key, what):
    """runs the call, which must end in this very error"""
    try:
        call()
    except (Fault, OwnFault) as e:
        mon.check(e is error, key, "%s: another error reaches the caller: %r" % (what, e), repr(error))
    except Exception as e:
        cause = e
        seen = []
        while cause is not None and cause is not error:
            seen.append(repr(cause))
            cause = cause.__cause__ or cause.__context__
        mon.check(cause is error and not isinstance(e, (AttributeError, NameError, UnboundLocalError)), key, "%s: the caller gets %r" % (what, e), seen)
    else:
        mon.fail(key, "%s: the error is swallowed" % what, repr(error))


def case(i, rng, mon):
    import random

    k = i % (len(fmts.W) * 2 + len(SOURCES))
    random.seed(i)
    if k < len(fmts.W):
        writing_streams(fmts.W[k], rng, mon)
    elif k < 2 * len(fmts.W):
        writing_files(fmts.W[k - len(fmts.W)], rng, mon)
    else:
        reading(SOURCES[k - 2 * len(fmts.W)], rng, mon)


def job(f, rng):
    d, nb = gen.design(rng, blocks=rng.choice((1, 2, 3)), per=rng.choice((1, 3, 10)), span=60, box=300, speeds=rng.random() < 0.2)
    p = gen.make_pattern(d, gen.threads(rng, nb + 8, meta=True), {"name": gen.text(rng), "author": gen.text(rng), "list": [1, 2]})
    s = fmts.random_settings(rng, f.ext)
    return p, s


def writing_streams(f, rng, mon):
    from pyembroidery import EmbPattern

    p, s = job(f, rng)
    mon.note("write", f.ext, s, show(p.stitches, 60))
    before = snap(p)
    s0 = copy.deepcopy(s)
    w = Faulty(fmts.sink(f))
    EmbPattern.write_embroidery(f.writer(), p, w, s)
    clean = w.inner.getvalue()
    mon.check(clean == fmts.write(f.ext, p, s), "wrapped:" + f.ext, "writing through a wrapped stream gives the same bytes")
    fds = descriptors()
    for at in places(rng, w.calls):
        error = (Fault(28, "No space left on device") if rng.random() < 0.6 else OwnFault("mine"))
        t = Faulty(fmts.sink(f), at, error)
        struck_by(mon, lambda: EmbPattern.write_embroidery(f.writer(), p, t, s), error, "swallowed:" + f.ext, "call %d of %d while writing %s" % (at, w.calls, f.ext))
        mon.count("faults")
        mon.sig(f.ext, clean, at)
        mon.check(snap(p) == before and s == s0, "changed:" + f.ext, "a write that failed changed the design or the options", lambda: (at, s, show(p.stitches, 60)))
        mon.check(t.calls == at, "went-on:" + f.ext, "the writer used the stream after its error", lambda: (at, t.calls))
    mon.check(fmts.write(f.ext, p, s) == clean, "repeat:" + f.ext, "writing again after failed writes gives the same bytes")
    mon.count("repeats")
    mon.check(descriptors() == fds, "descriptors:" + f.ext, "no descriptor stays open", lambda: (fds, descriptors()))
    mon.sample({"format": f.ext, "stream calls": w.calls, "faults": min(w.calls, 40)})


def writing_files(f, rng, mon):
    """faults of the real file system, through file names"""
    import pyembroidery as pe

    p, s = job(f, rng)
    mon.note("write file", f.ext, s, show(p.stitches, 60))
    before = snap(p)
    s0 = copy.deepcopy(s)
    good = os.path.join(mon.scratch, "good." + f.ext)
    pe.write(p, good, s)
    with open(good, "rb") as h:
        clean = h.read()
    fds = descriptors()

    def check(what):
        mon.count("file_faults")
        mon.check(snap(p) == before and s == s0, "changed:" + f.ext, "a write that failed changed the design or the options", what)
        mon.check(descriptors() == fds, "descriptors:" + f.ext, "a descriptor stays open after " + what, lambda: (fds, descriptors()))

    def attempt(path, what):
        try:
            pe.write(p, path, s)
        except Exception as e:
            mon.check(isinstance(e, OSError), "swallowed:" + f.ext, "%s: writing %s reports another error: %r" % (what, f.ext, e))
            check(what)  # while the error is still held
        else:
            mon.fail("swallowed:" + f.ext, "%s: writing %s reports no error" % (what, f.ext))

    if clean:
        full = os.path.join(mon.scratch, "full." + f.ext)
        os.symlink("/dev/full", full)
        attempt(full, "a full device")
        os.remove(full)
        limit = os.path.join(mon.scratch, "limit." + f.ext)
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        for n in {0, 1, len(clean) // 2, len(clean) - 1, rng.randrange(len(clean))}:
            sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
            try:
                attempt(limit, "a file size limit")
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
                signal.signal(signal.SIGXFSZ, sig)
            mon.sig(f.ext, clean, "limit", n)
        if os.path.exists(limit):
            os.remove(limit)
    attempt(os.path.join(mon.scratch, "nowhere", "x." + f.ext), "a missing directory")
    folder = os.path.join(mon.scratch, "dir." + f.ext)
    os.mkdir(folder)
    attempt(folder, "a directory in place of the file")
    os.rmdir(folder)
    pe.write(p, good, s)
    with open(good, "rb") as h:
        mon.check(h.read() == clean, "repeat:" + f.ext, "writing again after failed writes gives the same bytes")
    mon.count("repeats")
    os.remove(good)


def reading(name_, rng, mon):
    from pyembroidery import EmbPattern
    import pyembroidery as pe
    import random

    f = refmk.make(name_, rng)
    from props.P11 import reader_of

    reader = reader_of(f.ext)
    mon.note("read", name_, f.data[:600].hex())
    seed = rng.random()
    random.seed(seed)
    w = Faulty(io.BytesIO(f.data))
    s = dict(f.settings or {})
    s0 = copy.deepcopy(s)
    q = EmbPattern.read_embroidery(reader, w, s)
    clean = content(q)
    for at in places(rng, w.calls, 25):
        error = (Fault(5, "Input/output error") if rng.random() < 0.6 else OwnFault("mine"))
        t = Faulty(io.BytesIO(f.data), at, error)
        struck_by(mon, lambda: EmbPattern.read_embroidery(reader, t, s), error, "swallowed:" + name_, "call %d of %d while reading %s" % (at, w.calls, name_))
        mon.count("faults")
        mon.sig(name_, f.data, at)
        mon.check(s == s0, "changed:" + name_, "a read that failed changed the options")
        mon.check(t.calls == at, "went-on:" + name_, "the reader used the stream after its error", lambda: (at, t.calls))
    random.seed(seed)
    q = EmbPattern.read_embroidery(reader, io.BytesIO(f.data), s)
    mon.check(content(q) == clean, "repeat:" + name_, "reading again after failed reads gives the same pattern")
    mon.count("repeats")
    fds = descriptors()
    folder = os.path.join(mon.scratch, "d." + f.ext)
    os.mkdir(folder)
    for path in (folder, os.path.join(mon.scratch, "missing." + f.ext)):
        try:
            pe.read(path)
        except OSError:
            mon.check(descriptors() == fds, "descriptors:" + name_, "a descriptor stays open while the error is held", lambda: (fds, descriptors()))
        else:
            mon.fail("swallowed:" + name_, "reading %s reports no error" % path)
        mon.count("file_faults")
    os.rmdir(folder)
    # a file that is damaged, or whose reader fails at any point, is closed when the error arrives
    path = os.path.join(mon.scratch, "x." + f.ext)
    for n in range(4):
        data = bytearray(f.data)
        if n < 2 or not data:
            del data[rng.randrange(len(data) + 1):]
        else:
            for _ in range(rng.choice((1, 5, 40))):
                data[rng.randrange(len(data))] = rng.choice((0, 0xFF, 0x80, rng.randrange(256)))
        data = bytes(data)
        if reader_bounded(data):
            with open(path, "wb") as h:
                h.write(data)
            try:
                pe.read(path, dict(s))
            except Exception as e:
                mon.count("damaged_errors")
                mon.check(descriptors() == fds, "descriptors:" + name_, "a descriptor stays open while the error of a damaged file is held", lambda: (fds, descriptors(), repr(e)))
            mon.check(descriptors() == fds, "descriptors:" + name_, "a descriptor stays open after a damaged file", lambda: (fds, descriptors()))
    with open(path, "wb") as h:
        h.write(f.data)
    for at in (1, rng.randint(1, max(w.calls, 1)), max(w.calls, 1)):
        error = Fault(5, "Input/output error") if rng.random() < 0.5 else OwnFault("mine")
        r = Failing(reader, at, error)

        def call():
            pe.read_embroidery(r, path, dict(s))

        try:
            call()
        except (Fault, OwnFault) as e:
            mon.check(descriptors() == fds, "descriptors:" + name_, "a descriptor stays open while the error of the reader is held", lambda: (fds, descriptors(), repr(e)))
            mon.count("reader_errors")
        except Exception as e:  # a text reader that does not pass errors on
            mon.check(descriptors() == fds, "descriptors:" + name_, "a descriptor stays open while the error of the reader is held", lambda: (fds, descriptors(), repr(e)))
    os.remove(path)
    mon.check(descriptors() == fds, "descriptors:" + name_, "no descriptor stays open", lambda: (fds, descriptors()))


class Failing:
    """a reader like another that fails at the k-th call of the file"""

    def __init__(self, reader, at, error):
        self.reader, self.at, self.error = reader, at, error
        if hasattr(reader, "READ_FILE_IN_TEXT_MODE"):
            self.READ_FILE_IN_TEXT_MODE = reader.READ_FILE_IN_TEXT_MODE

    def read(self, f, out, settings=None):
        self.reader.read(Faulty(f, self.at, self.error), out, settings)
        raise self.error


def reader_bounded(data):
    return len(data) < 200000

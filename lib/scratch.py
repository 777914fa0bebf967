import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch_dir():
    """A private directory the check creates, works in and removes. cwd moves there for the duration."""
    base = tempfile.mkdtemp(prefix="verif-emb-")
    old = os.getcwd()
    try:
        os.chdir(base)
        yield base
    finally:
        os.chdir(old)
        assert os.path.basename(base).startswith("verif-emb-")
        shutil.rmtree(base, ignore_errors=True)

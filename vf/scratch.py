"""Scratch directories that the checks create and remove."""
import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-norfair-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_seqinfo(folder, **values):
    """A MOTChallenge sequence information file."""
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\n" + "".join("%s=%s\n" % kv for kv in values.items()))

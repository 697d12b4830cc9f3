"""Makes `hypothesis` importable from the project's interpreter, offline.

The wheels are unpacked once into /verif/.deps (git-ignored).  Nothing is
installed into the project's own environment.
"""
import glob
import os
import sys
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _unpack() -> bool:
    marker = os.path.join(DEPS, ".complete")
    if os.path.exists(marker):
        return True
    tmp = f"{DEPS}.{os.getpid()}"
    found = 0
    for pattern in ("hypothesis-*.whl", "sortedcontainers-*.whl"):
        candidates = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        for wheel in candidates:
            tag = os.path.basename(wheel)
            if "cp312" in tag or "py3" in tag:
                with zipfile.ZipFile(wheel) as z:
                    z.extractall(tmp)
                found += 1
                break
    if found != 2:
        return False
    open(os.path.join(tmp, ".complete"), "w").close()
    try:
        os.rename(tmp, DEPS)
    except OSError:  # someone else was faster
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return os.path.exists(marker)


def ensure():
    try:
        ok = _unpack()
    except OSError:
        ok = False
    path = DEPS if ok else PYVENV
    if path not in sys.path:
        sys.path.append(path)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__, hypothesis.__file__)

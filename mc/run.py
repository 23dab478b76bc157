import importlib
import os
import sys

sys.dont_write_bytecode = True
for k, v in {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}.items():
    os.environ[k] = v
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("METKU_REPO", "/repo")
sys.path.insert(0, REPO)
import tempfile, atexit, shutil
if "MPLCONFIGDIR" not in os.environ:
    if os.path.isdir("/opt/venv/mplconfig"):
        os.environ["MPLCONFIGDIR"] = "/opt/venv/mplconfig"


def _go():
    prop = sys.argv[1]
    from mc import core
    mod = importlib.import_module("mc.props." + prop.lower())
    with core.quiet():
        import metku.framefem.framefem  # noqa: F401  (import order: breaks the package's import cycle)
    sys.exit(core.main(prop, mod.families, sys.argv[2:]))


if __name__ == "__main__":
    _go()

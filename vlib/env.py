"""Import hachoir from /repo and put it in a quiet, deterministic state."""
import os
import sys

REPO = os.environ.get("HACHOIR_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = os.path.join(REPO, "tests", "files")
PYTHON = sys.executable

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def quiet():
    import hachoir.core.config as config
    from hachoir.core.log import log
    config.quiet = True
    config.verbose = False
    config.debug = False
    log.use_print = False
    log.use_buffer = False


def child_env(**kw):
    """Environment of a python child which must import hachoir from /repo."""
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "TMPDIR")}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent/pycache",
               PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C.UTF-8", LANG="C.UTF-8",
               PYTHONIOENCODING="utf-8")
    env.update(kw)
    return env


import hachoir  # noqa: E402
_where = os.path.dirname(os.path.abspath(hachoir.__file__))
if os.path.realpath(_where) != os.path.realpath(os.path.join(REPO, "hachoir")):
    sys.stderr.write("hachoir imported from %s\n" % _where)
    sys.exit(3)
quiet()

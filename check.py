#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE] [--sub NAME] [--scale X]

Exit 0: held on everything explored; 1: violation (line on stdout); 2: the check itself failed."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("_VERIF_ENV") != "1":
    from pbt import env as _e

    e = dict(os.environ, **_e.ENV, _VERIF_ENV="1")
    os.execve(sys.executable, [sys.executable] + sys.argv, e)

from pbt import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))

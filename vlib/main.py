"""Entry point: supervises one monitored run (see harness.py)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))

from vlib import harness  # noqa: E402

sys.exit(harness.supervise(sys.argv[1:]))

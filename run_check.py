"""Entry point of every check: run_check.py <PROPERTY> [--replay FILE] [--facet NAME]."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import env
env.setup()
from vp import core

if __name__ == "__main__":
    core.main(sys.argv[1:])

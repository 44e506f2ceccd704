"""python -m dst.replay FILE"""

import sys

from . import runner

if __name__ == "__main__":
    sys.exit(runner.replay(sys.argv[1]))

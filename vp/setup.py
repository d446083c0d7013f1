# -*- coding: utf-8 -*-
"""Setup: nothing is built in advance; checks that the tools the checks use are there."""
import os
import subprocess
import sys
from .core import HERE
from . import llir


def main():
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    subprocess.run(["clang", "--version"], check=True, stdout=subprocess.DEVNULL)
    llir.find_opt()
    llir.python_include()
    print("setup ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())

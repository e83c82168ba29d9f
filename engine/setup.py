"""Builds the compiler pass and runtimes ahead of the checks (checks rebuild whatever is missing)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from se import build    # noqa: E402
build.build_common()
print('setup done')

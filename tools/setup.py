"""Checks that the tools the checks need are present (nothing to build)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib.z3load import z3  # noqa: E402

print("z3", z3.get_version_string())

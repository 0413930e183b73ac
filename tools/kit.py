"""Lets opensfm be imported without its C++ extensions, from the current directory."""
import os, sys
from unittest.mock import MagicMock
sys.path.insert(0, os.getcwd())
for m in ("pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm", "pyfoundation"):
    sys.modules["opensfm." + m] = MagicMock(name=m)

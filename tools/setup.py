#!/usr/bin/env python3
"""Checks that what the checks need is installed; every check builds by itself."""
import os, shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
missing += [p for p in ("/usr/include/eigen3/Eigen/Core", "/usr/include/boost/property_tree/ptree.hpp") if not os.path.exists(p)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")

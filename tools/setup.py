#!/usr/bin/env python3
"""Checks that what the explorers are built with is there; they are built from /repo at every run."""
import shutil, sys, os
missing = [t for t in ('g++', 'clang++') if not shutil.which(t)] + [d for d in ('/usr/include/eigen3/Eigen/Dense',) if not os.path.exists(d)]
print('missing: ' + ', '.join(missing) if missing else 'ok')
sys.exit(1 if missing else 0)

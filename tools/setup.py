#!/usr/bin/env python3-vt
"""setup: nothing to build; check that the tools the checks call are present"""
import shutil, sys
import z3, numpy
missing = [t for t in ('clang++-18', 'opt-18', 'g++', 'python3-vt') if not shutil.which(t)]
if missing: print('missing tools', missing); sys.exit(1)
print('ok: z3', z3.get_version_string())

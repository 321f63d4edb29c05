#!/usr/bin/env python3-vt
"""nothing to build: checks that the tools the checks use are present"""
import os, sys
import z3
bad = [p for p in ('/usr/bin/clang++-18', '/usr/bin/clang-18', '/usr/bin/llvm-link-18', '/usr/bin/opt-18', '/usr/bin/g++') if not os.path.exists(p)]
if bad:
    sys.exit('missing: ' + ', '.join(bad))
print('z3', z3.get_version_string())

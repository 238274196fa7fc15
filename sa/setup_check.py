#!/usr/bin/env python3
"""setup_cmd: nothing to build; verifies that the tools the checks use are present."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import llvmir  # noqa: E402
import build   # noqa: E402

llvmir.lib()
for t in ('clang', 'llvm-link', 'llvm-dis'):
    if not os.path.exists(build.LLVM + t):
        sys.exit('missing ' + build.LLVM + t)
build.py_include()
print('ok')

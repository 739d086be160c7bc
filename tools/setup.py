#!/usr/bin/env python3
"""Nothing is built in advance (every check rebuilds what it needs); this only checks that the tools are there."""
import shutil, sys
bad = [t for t in ('clang-18', 'g++', 'z3', 'z3-new', 'cvc5', 'lean', 'cbmc', 'goto-cc') if not shutil.which(t)]
if bad: print('missing tools:', bad); sys.exit(1)
print('ok')

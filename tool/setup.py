"""nothing to build ahead: every check extracts and builds from the current /repo"""
import shutil, sys
for t in ('why3', 'z3', 'cvc5', 'clang++', 'g++'):
    if shutil.which(t) is None: print('missing', t); sys.exit(1)

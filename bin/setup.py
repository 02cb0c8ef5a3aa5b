#!/usr/bin/env python3
"""Builds the fact extractor and checks that it analyses the current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import facts
try:
    p = facts.load()
except facts.AnalysisBroken as e:
    print('setup failed: %s' % e)
    sys.exit(2)
print('%d functions, %d of them in the repository, %d source files' % (len(p.fns), len(p.repo_fns()), p.nsrc))

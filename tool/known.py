#!/usr/bin/env python3
"""writes the names of the functions which exist when the rules are made (lib/rules/p05_known.txt): what new functions need is not decided by P05"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import facts
from rules import p05
p = facts.load()
with open(os.path.join(os.path.dirname(p05.__file__), 'p05_known.txt'), 'w') as o:
    for q in sorted({p05.plain(f.q) for f in p.repo_fns()}):
        print(q, file=o)

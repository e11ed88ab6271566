#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: run the check of a property (see DESIGN.md). Honours VERIF_SEED and VERIF_TIER."""
import importlib, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
    os.environ['VERIF_TIER'] = sys.argv[2]
prop = sys.argv[1]
for name in sorted(os.listdir(os.path.join(here, 'checks'))):
    if name.endswith('_checks.py'):
        with open(os.path.join(here, 'checks', name)) as f:
            text = f.read()
        if f'def {prop}()' in text:
            getattr(importlib.import_module(name[:-3]), prop)()
            sys.exit('no verdict')
sys.exit(f'no check of {prop}')

# -*- coding: utf-8 -*-
"""Texts and levels used by check.py and tools/mkmanifest.py."""
PIDS = ['C%02d' % i for i in range(1, 22)]
PROVED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21']
LEVELS = {p: 'proof' if p in PROVED else 'exploration' for p in PIDS}
TECH = {p: 'contracts on the bytecode of the real functions, obligations discharged by SMT (pyvc); bounded run-time contracts beside it'
        for p in PIDS}
TECH.update({p: 'bounded check of run-time contracts on the real functions' for p in PIDS if p not in PROVED})
NOTES = {p: 'floats treated as reals with NaN/inf; see DESIGN.md for assumptions and the bounded layer' for p in PIDS}
TRUSTED = ['CPython 3.12 (compiler and interpreter of /repo and of the verifier)', 'z3', 'cvc5',
           'pyvc (engine, interpreter and models in /verif/pyvc)',
           'real arithmetic in place of floating point']
RULES = {p: 'Random cases of rt/%s.py plus its list of fixed cases, evaluated on the real code against an '
            'independent oracle.' % p.lower() for p in PIDS}
ASSUME = {}

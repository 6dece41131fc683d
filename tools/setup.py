"""Checks that the tools the framework needs are there (nothing to build: everything is Python)."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, mpmath, numpy
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)

"""nothing to build: checks that the interpreter, z3 and cvc5 are there"""
import shutil, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy
assert shutil.which("cvc5")
print("ok", z3.get_version_string(), numpy.__version__)

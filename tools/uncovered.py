#!/opt/venv/bin/python
"""functions of /repo/prosimos that no contract names"""
import ast, glob, importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import driver
for f in sorted(glob.glob(HERE + "/units/p*.py")):
    importlib.import_module("units." + os.path.basename(f)[:-3])
named = {t for u in driver.UNITS.values() for t in u.targets}
tot = n = 0
for f in sorted(glob.glob("/repo/prosimos/**/*.py", recursive=True) + ["/repo/bpdfr_discovery/log_parser.py", "/repo/cli/diff_res_bpsim.py"]):
    mod = os.path.relpath(f, "/repo")[:-3].replace("/", ".")
    for node in ast.parse(open(f).read()).body:
        for q, fn in [(node.name, node)] if isinstance(node, ast.FunctionDef) else [(node.name + "." + x.name, x) for x in node.body if isinstance(x, ast.FunctionDef)] if isinstance(node, ast.ClassDef) else []:
            size = fn.end_lineno - fn.lineno
            tot += size
            if mod + ":" + q not in named:
                n += size
                print("%4d %s:%s" % (size, mod.replace("prosimos.", "", 1), q))
print("lines in functions", tot, "not named", n)

"""Write sa/baseline_functions.txt: the functions of the original tree (run once, by hand)."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.inline import functions
root = sys.argv[1] + '/src/ocgis'
out = set()
for dp, dn, fns in os.walk(root):
    for fn in fns:
        if fn.endswith('.py') and '/test' not in dp:
            p = os.path.join(dp, fn)
            name = os.path.relpath(p, os.path.dirname(root))[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            out |= {q for q, f, c, b in functions(name, ast.parse(open(p).read()))}
print('\n'.join(sorted(out)))

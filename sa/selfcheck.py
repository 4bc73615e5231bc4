"""Every rule module with a directory under sa/fixtures is first run on that small program: the lines marked ``# BAD`` must be
reported and no other line may be.  A rule whose expected count on the real tree is zero is thereby known to fire."""
import os
import re

from .program import Program, REPO
from .report import Result

HERE = os.path.dirname(os.path.abspath(__file__))


def check(modname, mod, res):
    root = os.path.join(HERE, 'fixtures', modname)
    if not os.path.isdir(root):
        return
    want = set()
    for dp, dn, fns in os.walk(root):
        for fn in fns:
            if fn.endswith('.py'):
                with open(os.path.join(dp, fn)) as f:
                    for i, line in enumerate(f, 1):
                        if re.search(r'#\s*BAD\b', line):
                            want.add('%s:%d' % (os.path.relpath(os.path.join(dp, fn), root), i))
    prog = Program(root=root)
    prog.fixture = True
    r = Result(res.prop)
    mod.run(prog, r)
    got = set()
    for v in r.violations:
        p, line = v.loc.rsplit(':', 1)
        got.add('%s:%s' % (os.path.relpath(os.path.join(REPO, p), root), line))
    for x in sorted(want - got):
        res.broken.append('self-test of %s: %s should be reported' % (modname, x))
    for x in sorted(got - want):
        res.broken.append('self-test of %s: %s should not be reported' % (modname, x))
    res.count('selftest_positive_examples', len(want))

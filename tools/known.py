"""Writes sa/known_functions.txt from /repo (run by hand when the analyses have been adapted to the current source)."""
import ast, os
REPO = '/repo'
out = []
for root, package in (('core/ratarmountcore', 'ratarmountcore'), ('ratarmount', 'ratarmount')):
    for d, ds, fs in os.walk(os.path.join(REPO, root)):
        ds[:] = [x for x in ds if x not in ('_external', '__pycache__')]
        for f in fs:
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                tree = ast.parse(open(os.path.join(REPO, rel)).read())
                for s in tree.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        out.append(f"{rel}:{s.name}")
                    if isinstance(s, ast.ClassDef):
                        out += [f"{rel}:{s.name}.{x.name}" for x in s.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa', 'known_functions.txt'), 'w').write('\n'.join(sorted(set(out))) + '\n')
print(len(set(out)))

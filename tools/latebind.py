"""Lint of our own property files: closures created in a loop (and possibly run later, in a batch) must not
refer to names the loop rebinds, except through default arguments."""
import ast
import glob
import sys

import symtable


def free(fn):
    bound = set()
    args = fn.args
    for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
        bound.add(a.arg)
    used = set()
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name):
                (used if isinstance(x.ctx, ast.Load) else bound).add(x.id)
            elif isinstance(x, (ast.FunctionDef,)):
                bound.add(x.name)
                for a in x.args.args:
                    bound.add(a.arg)
            elif isinstance(x, ast.Lambda):
                for a in x.args.args:
                    bound.add(a.arg)
    return used - bound


bad = 0
for p in sorted(glob.glob('/verif/mqa/props/*.py')):
    tree = ast.parse(open(p).read())
    for loop in ast.walk(tree):
        if not isinstance(loop, ast.For):
            continue
        names = set()
        for x in ast.walk(loop.target):
            if isinstance(x, ast.Name):
                names.add(x.id)

        def collect(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names.add(s.name)
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
        collect(loop.body)
        for s in loop.body:
            for f in ast.walk(s):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                    hit = free(f) & names
                    if hit:
                        bad += 1
                        print('%s:%d %s uses %s' % (p.split('/')[-1], f.lineno, getattr(f, 'name', 'lambda'), ', '.join(sorted(hit))))
print(bad)

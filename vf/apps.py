"""Definitions of application scripts without the simulations they run."""
import ast
import os
from vf import env


def _constant(v):
    if isinstance(v, ast.Lambda):
        return True
    return not any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute)) for x in ast.walk(v))


def _names(t):
    return [t.id] if isinstance(t, ast.Name) else [e.id for e in t.elts if isinstance(e, ast.Name)] if isinstance(t, ast.Tuple) else []


def definitions(path, rewrite=None, extra=()):
    """Imports, functions, classes and plain constants of a script of the repository (its module-level calls are not run).
    extra: module-level names whose assignments are kept as well."""
    full = os.path.join(env.REPO, path)
    keep = []
    for n in ast.parse(open(full).read()).body:
        names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) else []
        if names and not any(x.startswith('matplotlib') for x in names):
            keep.append(n)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            keep.append(n)
        elif isinstance(n, ast.Assign) and all(_names(t) for t in n.targets):
            if _constant(n.value) or any(x in extra for t in n.targets for x in _names(t)):
                keep.append(n)
    if rewrite:
        keep = [rewrite.visit(n) for n in keep]
    ns = {'__name__': 'definitions of ' + path, '__file__': full}
    exec(compile(ast.Module(keep, []), full, 'exec'), ns)
    return ns

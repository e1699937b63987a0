"""names in the source of the library"""
import ast
import glob
import os


def vocabulary(repo):
    out = set()
    for f in glob.glob(os.path.join(repo, 'gpgradpy', 'src', '**', '*.py'), recursive=True):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            for k in ('attr', 'id', 'name', 'arg'):
                v = getattr(n, k, None)
                if isinstance(v, str):
                    out.add(v)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
    return out


_CACHE = {}


def unknown(e, repo):
    """an exception for a name that is nowhere in the library: the check asks for something the library does not have (any more)"""
    if not isinstance(e, AttributeError) or getattr(e, 'name', None) is None:
        return False
    if repo not in _CACHE:
        _CACHE[repo] = vocabulary(repo)
    return e.name not in _CACHE[repo]

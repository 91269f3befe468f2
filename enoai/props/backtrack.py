"""Every regular expression of the program can be matched without exponential backtracking."""
import ast
from ..ambiguity import exponential, TooComplex
from .. import lines, regex
from ..lib import RUN
from ..world import REPO
from . import doc as pd
from .history import History, BLOCK
import os

LITERAL = {RUN: '-{3}', regex.PLACEHOLDER: regex.PLACEHOLDER}


def call_sites():
    """(module path, line) of every use of a function of module re"""
    for root, _d, files in os.walk(os.path.join(REPO, 'enolib')):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(root, f)
            tree = ast.parse(open(path, encoding='utf-8').read())
            mods, funcs = set(), set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    mods |= {a.asname or a.name for a in n.names if a.name == 're'}
                if isinstance(n, ast.ImportFrom) and n.module == 're':
                    funcs |= {a.asname or a.name for a in n.names}
            for n in ast.walk(tree):
                if isinstance(n, ast.Call):
                    fn = n.func
                    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in mods:
                        name = fn.attr
                    elif isinstance(fn, ast.Name) and fn.id in funcs:
                        name = fn.id
                    else:
                        continue
                    if name not in ('escape', 'purge', 'error'):
                        yield os.path.relpath(path, REPO), n.lineno, getattr(n, 'end_lineno', n.lineno), name


def run(ob):
    h = History(ob)
    e = h.w.e
    for shapes in (BLOCK, ['FIELDV', 'BAD'], ['BAD', 'FIELD'], ['SEC1', 'FIELD', 'ENTRYV']):
        try:
            h.read(lines.Doc(shapes), h.w.state())
        except Exception as x:                          # only the expressions met matter here
            ob.unsure(f'reading {shapes}: {x}'[:150])
    met = {}
    for pat, site in e.regex_sites.items():
        met[pat] = site
    anchored = any(name == 'fullmatch' for _p, _a, _b, name in call_sites())
    for pat, site in sorted(met.items(), key=lambda x: x[1]):
        ob.count('expressions')
        text = ''.join(LITERAL.get(c, c) for c in pat)
        flags = 0
        inf = e.regexes.get(pat)
        if inf is not None:
            flags = getattr(inf, 'flags', 0)
        try:
            sure = exponential(text, flags, anchored=anchored)
            maybe = sure or exponential(text, flags, True, anchored)
        except (TooComplex, RecursionError) as x:
            ob.unsure(f'{site}: {x}')
            continue
        if sure:
            ob.violation('exponential', site, f'a loop of this expression can read the text {sure!r} in two ways over and over: '
                         f'{pat[:300]}')
        elif maybe:
            ob.unsure(f'{site}: ambiguous unless a look-around forbids it')
    lines_met = {tuple(s.split(' ')[0].rsplit(':', 1)) for s in met.values()}
    for path, a, b, name in call_sites():
        ob.count('call sites')
        if not any(p == path and a <= int(n) <= b for p, n in lines_met):
            ob.unsure(f'{path}:{a}: the expression of re.{name} is not known')


def obs(tier):
    pd.warm()
    return [('all expressions', run)]

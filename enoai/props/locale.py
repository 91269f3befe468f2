"""Message catalogues: every locale answers every message the program asks for, with every argument in its place."""
import ast
import os
import re
from ..values import *
from ..state import *
from ..interp import Unsupported
from ..world import World, REPO
from .common import world, has_top

PKG = 'enolib.messages'


def locales(w):
    return sorted(m.split('.')[-1] for m in w.e.mods if m.startswith(PKG + '.'))


def template(w, st, v, params):
    """text of a message with {parameter} for its arguments, or None"""
    if isinstance(v, C):
        return v.v if isinstance(v.v, str) else None
    if isinstance(v, T) and v.op == 'concat':
        parts = [template(w, st, p, params) for p in v.args]
        return None if any(p is None for p in parts) else ''.join(parts)
    if isinstance(v, T) and v.op == 'str' and len(v.args) == 1:
        return template(w, st, v.args[0], params)
    for n, t in params.items():
        if v == t:
            return '{' + n + '}'
    return None


def texts(w, ob, loc):
    """name -> (parameters, [texts])"""
    out = {}
    mod = w.base.get(w.e.mods[f'{PKG}.{loc}'])
    for n, v in mod.vars.items():
        if n.startswith('__'):
            continue
        if isinstance(v, C) and isinstance(v.v, str):
            out[n] = (None, [v.v])
        elif isinstance(v, F):
            ps = [p.arg for p in v.node.args.args]
            args = {p: T('str', 'arg', (C(p),)) for p in ps}
            st = w.state()
            for t in args.values():
                st.truth[t] = True
            res = []
            for o in w.call(v, list(args.values()), st):
                ob.count('paths')
                res.append(None if o.kind == 'exc' or o.st.taint else template(w, o.st, o.value, args))
            out[n] = (ps, res)
    return out


def asked(w):
    """(name, number of arguments or None, where) of the messages the program asks for by name"""
    for mod, tree in w.e.trees.items():
        if not mod.startswith('enolib') or mod.startswith(PKG):
            continue
        calls = {id(n.func): len(n.args) for n in ast.walk(tree) if isinstance(n, ast.Call)
                 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args)}
        kw = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == 'messages' \
                    and isinstance(n.ctx, ast.Load):
                yield n.attr, calls.get(id(n), -1 if id(n) in kw else None), f'{mod.replace(".", "/")}.py'


def catalogue(root):
    """message name -> (arguments, {locale: text}) from the specification and the translations, or None"""
    spec = os.path.join(root, '..', 'locales', 'specification.eno')
    if not os.path.exists(spec):
        return None
    msgs, group, pending = {}, None, None
    snake = lambda s: re.sub(r'[ \-]', '_', s.lower())
    section = None
    for l in open(spec, encoding='utf-8'):
        l = l.rstrip('\n')
        if l.startswith('# '):
            section = l[2:].strip()
        elif l.startswith('## '):
            group = l[3:].strip()
        elif section != 'Messages' or group == 'Terminology' or not l.strip() or l.startswith('>'):
            continue
        elif pending and ' = ' in l:
            a, t = l.split(' = ', 1)
            msgs[pending] = ([snake(x.strip()) for x in a.split(',')], t.strip())
            pending = None
        elif l.endswith(':'):
            pending = snake(l[:-1].strip())
        elif ': ' in l:
            n, t = l.split(': ', 1)
            msgs[snake(n.strip())] = (None, t.strip())
    out = {}
    tr = {}
    folder = os.path.join(root, '..', 'locales', 'translations')
    for f in os.listdir(folder) if os.path.isdir(folder) else ():
        if f.endswith('.po'):
            txt = open(os.path.join(folder, f), encoding='utf-8').read()
            txt = re.sub(r'"\n"', '', txt)
            unq = lambda s: re.sub(r'\\(.)', r'\1', s)
            tr[f[:-3]] = {unq(a): unq(b) for a, b in re.findall(r'msgid "((?:[^"\\]|\\.)*)"\nmsgstr "((?:[^"\\]|\\.)*)"', txt)}
    for n, (args, t) in msgs.items():
        one = {}
        for loc, d in tr.items():
            x = d.get(t) or None
            if x is not None:
                for a in args or ():
                    x = re.sub(r'\[' + a + r'\]', '{' + a + '}', x, flags=re.I)
                one[loc] = x
        out[n] = (args, one)
    return out


def obs(tier):
    def run(ob):
        w = world(ob, light=False, specs=())
        locs = locales(w)
        if len(locs) < 2:
            ob.unsure('no locales')
            return
        tabs = {l: texts(w, ob, l) for l in locs}
        ref = tabs.get('en')
        if ref is None:
            ob.unsure('anchor vanished: enolib.messages.en')
            return
        names = {}
        for n, args, where in asked(w):
            names.setdefault((n, args), where)
        for (n, args), where in sorted(names.items(), key=str):
            for l in locs:
                ob.count('requests')
                if n not in tabs[l]:
                    ob.violation('asked', f'{where}: {n}', f'message {n} does not exist in locale {l}')
                    continue
                ps = tabs[l][n][0]
                if args is not None and args >= 0 and ps is None:
                    ob.violation('asked', f'{where}: {n}', f'message {n} takes no arguments in locale {l}')
                elif args is not None and args >= 0 and len(ps) != args:
                    ob.violation('asked', f'{where}: {n}', f'message {n} takes {len(ps)} arguments in locale {l}, gets {args}')
                elif args is None and ps is not None:
                    ob.violation('asked', f'{where}: {n}', f'message {n} needs arguments in locale {l}')
        cat = catalogue(REPO)
        wanted = {n for n, _a in names} | set(cat or ())
        for mod, tree in w.e.trees.items():
            if mod.startswith('enolib') and not mod.startswith(PKG):
                cs = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
                wanted |= cs | {c + '_with_key' for c in cs}
        for l in locs:
            mod = f'enolib/messages/{l}.py'
            for n in sorted((set(ref) | set(tabs[l])) & wanted):
                ob.count('messages')
                if n not in tabs[l]:
                    ob.violation('parity', f'{mod}: {n}', f'message {n} of locale en does not exist in {l}')
                    continue
                ps, ts = tabs[l][n]
                if n in ref and ps != ref[n][0]:
                    ob.violation('parity', f'{mod}: {n}', f'message {n} takes {ps} instead of {ref[n][0]} as in locale en')
                for t in ts:
                    if t is None:
                        ob.unsure(f'text of {l}.{n}')
                    elif not t.strip():
                        ob.violation('parity', f'{mod}: {n}', f'message {n} is empty')
                    else:
                        for p in ps or ():
                            if '{' + p + '}' not in t:
                                ob.violation('arguments', f'{mod}: {n}', f'message {n} of locale {l} does not mention {p}: {t!r}')
        if cat is None:
            ob.count('catalogues_missing')
            return
        for n, (args, tr) in sorted(cat.items()):
            for l, t in sorted(tr.items()):
                if l not in tabs or n not in tabs[l]:
                    continue
                ob.count('translations')
                for got in tabs[l][n][1]:
                    if got is not None and got != t:
                        ob.violation('catalogue', f'enolib/messages/{l}.py: {n}', f'message {n} of locale {l} is {got!r}, the '
                                     f'catalogue has {t!r}')
    return [('message catalogues', run)]

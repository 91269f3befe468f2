"""Shared pieces of the property checks."""
import os
from ..values import *
from ..state import *
from ..interp import Engine, Unsupported, Budget
from ..world import World, Outcome
from ..report import AnchorVanished, VERIF

SPEC = os.path.join(VERIF, 'specs')


def world(ob, k=2, specs=('api',), max_steps=6_000_000, light=True, **kw):
    w = World(k=k, max_steps=max_steps, specs=[(f'spec_{s}', os.path.join(SPEC, f'{s}.py')) for s in specs], **kw)
    ob.engine(w.e)
    if light:
        summarise_selections(w)
    return w


def chained_copies(w, depth=4):
    """templates of templates: extended records may extend or mirror a third one"""
    w.sc.chains = True
    w.e.rec_limit = depth
    for f in ('enolib.context:Context.raw', 'spec_raw:raw'):
        w.e.rec_limits[f] = 2
    return w


def summarise_selections(w):
    """error selections are the subject of their own property: elsewhere they are an opaque record"""
    def hook(e, f, args, kw, st, fr, node, out):
        if f.name == 'last_in':
            return None
        def sel():
            r = st.alloc(DictO({C('from'): T('any', 'sel', (C(f.name), C('from'))),
                                C('to'): T('any', 'sel', (C(f.name), C('to')))}))
            yield r, st
        return sel()
    m = w.e.mods.get('enolib.errors.selections')
    if m is not None:
        for n, v in w.base.get(m).vars.items():
            if isinstance(v, F) and v.module == 'enolib.errors.selections' and n.startswith('select'):
                w.e.call_hooks[f'{v.module}:{v.qual}'] = hook


def summarise_texts(w):
    """composed values and comments are the subject of their own properties: here one opaque text per record"""
    def hook(op):
        def run(e, f, args, kw, st, fr, node, out):
            rec = args[-1] if not kw else None
            if not is_doc_record(st, rec):
                return None
            return iter([(T('str', op, (rec,), True), st)])
        return run
    for names, op in ((('enolib.context:Context.value', 'spec_values:value'), 'value_of'),
                      (('enolib.context:Context.comment', 'spec_values:comment'), 'comment_of')):
        for n in names:
            w.e.call_hooks[n] = hook(op)


def cls_name(w, st, v):
    if isinstance(v, R) and isinstance(st.get(v.a), InstO):
        return w.e.class_names(st.get(v.a).cls, st)[0]
    return None


def is_doc_record(st, v):
    return isinstance(v, R) and isinstance(st.get(v.a), DictO) and 'role' in st.get(v.a).ghost


def record_of(w, st, v):
    """the document record an element instance stands for"""
    if not isinstance(v, R) or not isinstance(st.get(v.a), InstO):
        return None
    o = st.get(v.a)
    if '_instruction' in o.attrs and is_doc_record(st, o.attrs['_instruction']):
        return o.attrs['_instruction']
    recs = [x for x in o.attrs.values() if is_doc_record(st, x)]
    return recs[0] if len(recs) == 1 else None


def context_of(w, st, v):
    for x in st.get(v.a).attrs.values():
        if isinstance(x, R) and cls_name(w, st, x) == 'Context':
            return x
    return None


def msg(name, key):
    """text term of a message that has a plain and a _with_key form"""
    if key == NONE:
        return T('str', 'msg', (C(name),))
    return T('str', 'msgcall', (C(name + '_with_key'), key))


def crash_site(st, v):
    o = st.get(v.a)
    return o.ghost.get('site') or '?'


def exc_names(w, st, v):
    return w.e.exc_class_names(v, st)


def is_error(w, st, v, name='ValidationError'):
    return name in exc_names(w, st, v)


def err_text(w, st, v):
    return st.get(v.a).attrs.get('text')


def has_top(v, st=None, depth=4, seen=None):
    if v is None:
        return False
    for x in subterms(v):
        if isinstance(x, Top):
            return True
        if isinstance(x, R) and st is not None and depth:
            o = st.get(x.a)
            if isinstance(o, ListO) and any(has_top(y, st, depth - 1) for y in o.items if isinstance(y, V)):
                return True
    return False


def func_site(w, qual):
    """file:function of a qualified name 'module:Qual'"""
    mod, _, q = qual.partition(':')
    return f'{mod.replace(".", "/")}.py {q}'


def facts(w, st, limit=14):
    """printable path facts for reports"""
    out = []
    for d in (st.truth,):
        for k, v in list(d.items())[:limit]:
            out.append(f'{k!r} is {"truthy" if v else "falsy"}')
    for k, v in list(st.eqs.items())[:limit]:
        x = sorted(map(repr, k))
        if len(x) == 2 and 'absent' not in x[0] + x[1]:
            out.append(f'{x[0]} {"==" if v else "!="} {x[1]}')
    return out


def records(w, st, limit=12):
    """printable shapes decided so far"""
    out = []
    for a, o in st.heap.items():
        if isinstance(o, DictO) and 'role' in o.ghost:
            t = o.keys.get(C('type'))
            ks = [k.v for k in o.keys if isinstance(k, C) and k.v not in ('type', 'ranges', 'parent', 'line')]
            out.append(f'@{a} role={o.ghost["role"]} type={t!r} kinds={[n for n, _ in (o.variants or ())][:4]} has={ks}')
    return out[:limit]


def pieces(st, v):
    """the parts of a text, without the empty ones, blanks in one form"""
    out = []
    for p in (v.args if isinstance(v, T) and v.op == 'concat' else (v,)):
        if isinstance(p, T) and p.op in ('m:rjust', 'm:ljust') and len(p.args) == 2 and lin(p.args[1]) is not None:
            pad = mklin(*linadd(lin(p.args[1]), lin(T('int', 'len', (p.args[0].nonnull(),))), -1)) \
                if isinstance(p.args[0], T) else None
            if pad is not None:
                fill = pieces(st, T('str', 'repeat', (C(' '), pad)))
                out += fill + [p.args[0]] if p.op == 'm:rjust' else [p.args[0]] + fill
                continue
        if isinstance(p, T) and p.op == 'repeat' and isinstance(p.args[0], C):
            if st.proves('<=', p.args[1], C(0)):
                continue
            n = next((n for n in range(1, 4) if st.inteq(p.args[1], C(n))), None)
            if n is not None:
                p = C(p.args[0].v * n)
        if isinstance(p, T) and p.kind == 'str' and not p.opt and st.truth.get(p) is False or p == C(''):
            continue
        if isinstance(p, C) and out and isinstance(out[-1], C):
            out[-1] = C(out[-1].v + p.v)
        else:
            out.append(p)
    return out


def is_text(v):
    return isinstance(v, C) and isinstance(v.v, str) or isinstance(v, T) and v.kind == 'str' and not v.opt


def same(w, st, a, b, depth=6):
    """provably the same abstract value in st"""
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    if is_text(a) and is_text(b):
        x, y = pieces(st, a), pieces(st, b)
        if len(x) == len(y) and all(
                p == q or isinstance(p, T) and isinstance(q, T) and p.op == q.op == 'repeat' and p.args[0] == q.args[0]
                and st.inteq(p.args[1], q.args[1]) for p, q in zip(x, y)):
            return True
    if lin(a) is not None and lin(b) is not None:
        return st.inteq(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(w, st, x, y, depth) for x, y in zip(a.items, b.items))
    if isinstance(a, R) and isinstance(b, R) and depth:
        x, y = st.get(a.a), st.get(b.a)
        if isinstance(x, ListO) and isinstance(y, ListO):
            return len(x.items) == len(y.items) and all(
                (isinstance(p, V) and isinstance(q, V) and same(w, st, p, q, depth - 1)) or p == q
                for p, q in zip(x.items, y.items))
        if isinstance(x, DictO) and isinstance(y, DictO) and not is_doc_record(st, a) and not is_doc_record(st, b):
            if x.opt or y.opt or x.variants or y.variants:
                return False
            return set(x.keys) == set(y.keys) and all(same(w, st, x.keys[k], y.keys[k], depth - 1) for k in x.keys)
    if frozenset((a, b)) in st.eqs and st.eqs[frozenset((a, b))]:
        return True
    return False

# Registered loaders: the accessors they create against the general accessors given the same loader.
import enolib
from enolib import ValidationError


def attempt(fn):
    try:
        return ('value', fn())
    except ValidationError as error:
        return ('error', error.text)


def setup(how, f, g):
    def color(text):
        return f(text)

    def name(text):
        return g(text)
    if how == 'keywords':
        enolib.register(color=f, name=g)
    elif how == 'dict':
        enolib.register({'color': f, 'name': g})
    elif how == 'dicts':
        enolib.register({'color': f}, {'name': g})
    elif how == 'functions':
        enolib.register(color, name)
    elif how == 'mixed':
        enolib.register(name, {'color': f})
    elif how == 'apart':
        enolib.register(color=f)
        enolib.register(name=g)
    elif how == 'again':
        enolib.register(color=g, name=g)
        enolib.register(color=f)


def counting(function, calls):
    def counted(text):
        calls.append(text)
        return function(text)
    return counted


def pair_counted(label, registered, general, calls):
    got = attempt(registered)
    n = len(calls)
    want = attempt(general)
    ran = calls[:n]
    due = calls[n:]
    calls.clear()
    return [(label, got, ('same', want)), ('texts the loader is called with by ' + label, ran, ('same', due))]


def flat(lists):
    return [x for some in lists for x in some]


def pair(label, got, want):
    return (label, got, ('same', want))


def key_and_comment(obj, has_key, f, g, how):
    calls = []
    f, g = counting(f, calls), counting(g, calls)
    setup(how, f, g)
    out = []
    if has_key:
        out += [pair_counted('color_key', lambda: obj.color_key(), lambda: obj.key(f), calls),
                pair_counted('name_key', lambda: obj.name_key(), lambda: obj.key(g), calls)]
    return flat(out + [
        pair_counted('optional_color_comment', lambda: obj.optional_color_comment(), lambda: obj.optional_comment(f), calls),
        pair_counted('required_color_comment', lambda: obj.required_color_comment(), lambda: obj.required_comment(f), calls),
        pair_counted('optional_name_comment', lambda: obj.optional_name_comment(), lambda: obj.optional_comment(g), calls),
        pair_counted('required_name_comment', lambda: obj.required_name_comment(), lambda: obj.required_comment(g), calls)])


def value(obj, f, g, how):
    calls = []
    f, g = counting(f, calls), counting(g, calls)
    setup(how, f, g)
    return flat([
        pair_counted('optional_color_value', lambda: obj.optional_color_value(), lambda: obj.optional_value(f), calls),
        pair_counted('required_color_value', lambda: obj.required_color_value(), lambda: obj.required_value(f), calls),
        pair_counted('optional_name_value', lambda: obj.optional_name_value(), lambda: obj.optional_value(g), calls),
        pair_counted('required_name_value', lambda: obj.required_name_value(), lambda: obj.required_value(g), calls)])


def values(obj, f, g, how):
    calls = []
    f, g = counting(f, calls), counting(g, calls)
    setup(how, f, g)
    return flat([
        pair_counted('optional_color_values', lambda: obj.optional_color_values(), lambda: obj.optional_values(f), calls),
        pair_counted('required_color_values', lambda: obj.required_color_values(), lambda: obj.required_values(f), calls),
        pair_counted('optional_name_values', lambda: obj.optional_name_values(), lambda: obj.optional_values(g), calls),
        pair_counted('required_name_values', lambda: obj.required_name_values(), lambda: obj.required_values(g), calls)])


def missing(sec, key, f, g, how, kind):
    setup(how, f, g)
    obj = getattr(sec, kind)(key)
    out = [
        pair('color_key of a stand-in', attempt(lambda: obj.color_key()), attempt(lambda: obj.string_key())),
        ('optional_color_comment of a stand-in', attempt(lambda: obj.optional_color_comment()), ('same', ('value', None))),
        pair('required_color_comment of a stand-in', attempt(lambda: obj.required_color_comment()),
             attempt(lambda: obj.required_string_comment()))]
    if kind == 'field':
        out += [('optional_color_value of a stand-in', attempt(lambda: obj.optional_color_value()), ('same', ('value', None))),
                pair('required_name_value of a stand-in', attempt(lambda: obj.required_name_value()),
                     attempt(lambda: obj.required_string_value()))]
    if kind == 'list':
        out += [pair('optional_color_values of a stand-in', attempt(lambda: obj.optional_color_values()),
                     attempt(lambda: obj.optional_string_values())),
                pair('required_name_values of a stand-in', attempt(lambda: obj.required_name_values()),
                     attempt(lambda: obj.required_string_values()))]
    return out

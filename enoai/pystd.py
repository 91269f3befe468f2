"""Parts of the standard library written out as plain functions and classes; interpreted by the analyser, never executed."""


def itertools_takewhile(predicate, values):
    for x in values:
        if not predicate(x):
            break
        yield x


def itertools_dropwhile(predicate, values):
    dropping = True
    for x in values:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x


def itertools_filterfalse(predicate, values):
    for x in values:
        if not (predicate(x) if predicate is not None else x):
            yield x


def itertools_starmap(function, values):
    for x in values:
        yield function(*x)


def itertools_zip_longest(*iterables, fillvalue=None):
    rows = [list(i) for i in iterables]
    size = 0
    for row in rows:
        if len(row) > size:
            size = len(row)
    for i in range(size):
        yield tuple([row[i] if i < len(row) else fillvalue for row in rows])


def itertools_groupby(values, key=None):
    groups = []
    for x in values:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    return iter(groups)


def itertools_accumulate(values, func=None, *, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in values:
        if first:
            total = x
            first = False
        else:
            total = total + x if func is None else func(total, x)
        yield total


def itertools_pairwise(values):
    items = list(values)
    for i in range(len(items) - 1):
        yield (items[i], items[i + 1])


def itertools_compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def itertools_product(*iterables):
    rows = [()]
    for i in iterables:
        items = list(i)
        rows = [r + (x,) for r in rows for x in items]
    return iter(rows)


def itertools_chain_from_iterable(values):
    for x in values:
        yield from x


def functools_reduce(function, values, *initial):
    total = initial[0] if initial else None
    first = not initial
    for x in values:
        if first:
            total = x
            first = False
        else:
            total = function(total, x)
    if first:
        raise TypeError('reduce() of empty iterable with no initial value')
    return total


def operator_add(a, b):
    return a + b


operator_concat = operator_add


def operator_sub(a, b):
    return a - b


def operator_mul(a, b):
    return a * b


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_not_(a):
    return not a


def operator_truth(a):
    return bool(a)


def operator_is_(a, b):
    return a is b


def operator_is_not(a, b):
    return a is not b


def operator_contains(a, b):
    return b in a


def operator_getitem(a, b):
    return a[b]


def operator_setitem(a, b, c):
    a[b] = c


def operator_and_(a, b):
    return a & b


def operator_or_(a, b):
    return a | b


def operator_mod(a, b):
    return a % b


def operator_floordiv(a, b):
    return a // b


def operator_neg(a):
    return -a


class contextlib_suppress:
    def __init__(self, *classes):
        self._classes = classes

    def __enter__(self):
        return None

    def __exit__(self, kind, value, traceback):
        return kind is not None and isinstance(value, self._classes)


class contextlib_nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, kind, value, traceback):
        return None


class collections_deque:
    def __init__(self, values=(), maxlen=None):
        self._items = list(values)
        self.maxlen = maxlen
        self._trim()

    def _trim(self):
        if self.maxlen is not None:
            while len(self._items) > self.maxlen:
                self._items.pop(0)

    def append(self, x):
        self._items.append(x)
        self._trim()

    def appendleft(self, x):
        self._items.insert(0, x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            self._items.pop()

    def extend(self, values):
        for x in values:
            self.append(x)

    def extendleft(self, values):
        for x in values:
            self.appendleft(x)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        return self._items.pop(0)

    def clear(self):
        self._items.clear()

    def copy(self):
        return collections_deque(self._items, self.maxlen)

    def count(self, x):
        return self._items.count(x)

    def index(self, x):
        return self._items.index(x)

    def insert(self, i, x):
        self._items.insert(i, x)

    def remove(self, x):
        self._items.remove(x)

    def reverse(self):
        self._items.reverse()

    def __iter__(self):
        return iter(self._items)

    def __reversed__(self):
        return reversed(self._items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __setitem__(self, i, x):
        self._items[i] = x

    def __contains__(self, x):
        return x in self._items

    def __eq__(self, other):
        return isinstance(other, collections_deque) and self._items == other._items


class collections_ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def _merged(self):
        merged = {}
        for m in reversed(self.maps):
            merged.update(m)
        return merged

    def __iter__(self):
        return iter(self._merged())

    def __len__(self):
        return len(self._merged())

    def keys(self):
        return list(self._merged())

    def values(self):
        return list(self._merged().values())

    def items(self):
        return list(self._merged().items())

    def new_child(self, m=None):
        return collections_ChainMap({} if m is None else m, *self.maps)


class types_SimpleNamespace:
    def __init__(self, **values):
        for name, value in values.items():
            setattr(self, name, value)


class collections_Counter:
    def __init__(self, values=()):
        self._counts = {}
        self.update(values)

    def update(self, values=()):
        for x in values:
            self._counts[x] = self._counts.get(x, 0) + 1

    def __getitem__(self, key):
        return self._counts.get(key, 0)

    def get(self, key, default=None):
        return self._counts.get(key, default)

    def __setitem__(self, key, value):
        self._counts[key] = value

    def __contains__(self, key):
        return key in self._counts

    def __iter__(self):
        return iter(self._counts)

    def __len__(self):
        return len(self._counts)

    def keys(self):
        return self._counts.keys()

    def values(self):
        return self._counts.values()

    def items(self):
        return self._counts.items()

    def most_common(self, n=None):
        pairs = sorted(self._counts.items(), key=lambda p: p[1], reverse=True)
        return pairs if n is None else pairs[:n]


class re_ConstMatch:
    def _no(self, key):
        return self.names[key] if isinstance(key, str) else key

    def group(self, *keys):
        if not keys:
            return self.values[0]
        if len(keys) == 1:
            return self.values[self._no(keys[0])]
        return tuple([self.values[self._no(k)] for k in keys])

    def __getitem__(self, key):
        return self.values[self._no(key)]

    def groups(self, default=None):
        return tuple([default if v is None else v for v in self.values[1:]])

    def groupdict(self, default=None):
        return {name: default if self.values[i] is None else self.values[i] for name, i in self.names.items()}

    def span(self, key=0):
        return self.spans[self._no(key)]

    def start(self, key=0):
        return self.spans[self._no(key)][0]

    def end(self, key=0):
        return self.spans[self._no(key)][1]

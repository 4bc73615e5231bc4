import itertools


def carried(elements):
    dims = None
    out = []
    for e in elements:  # BAD iterations-are-independent
        if dims is None:
            dims = make(e)
        out.append((e, dims))
    return out


def carried_partly(elements):
    w = None
    for e in elements:  # BAD iterations-are-independent
        if e.masked:
            w = make(e)
        use(e, w)


def shrinking(elements, field):
    out = []
    for e in elements:  # BAD iterations-are-independent
        field = field.subset(e)
        out.append(make(field))
    return out


def union(elements):
    geom = None
    for e in elements:
        if geom is None:
            geom = e
        else:
            geom = geom.union(e)
    return geom


def total(elements):
    t, big, count = 0, None, 0
    for e in elements:
        new = t + make(e)
        t = new
        count += 1
        if big is None or e > big:
            big = e
    return t, big, count


def flag(elements, others):
    found = False
    out = []
    for e in elements:  # BAD iterations-are-independent
        for o in others:
            if make(e) == o:
                found = True
        if not found:
            out.append(e)
    return out


def first_flag(elements):
    build = True
    for e in elements:
        if build:
            use(e)
            build = False
        make(e)


def fresh(elements):
    for e in elements:
        dims = None
        if e.masked:
            dims = make(e)
        use(e, dims)


def last(elements):
    for e in elements:
        crs = make(e)
        use(e)
    return crs  # BAD last-element-does-not-win


def last_element(elements):
    for e in elements:
        use(e)
    return use(e)  # BAD last-element-does-not-win


def search(elements):
    for e in elements:
        crs = make(e)
        if crs is not None:
            break
    return crs


def only_first(elements):
    for e in elements:  # BAD loops-reach-every-element
        if make(e):
            use(e)
        return True  # BAD loops-reach-every-element


def up_to(elements):
    out = {}
    for e in elements:
        if make(e) is None:
            break  # BAD loops-reach-every-element
        out[e] = make(e)
    return out


def skipping(elements):
    out = {}
    for e in elements:
        if make(e) is None:
            continue
        out[e] = make(e)
    return out


def checked(elements, names):
    bad = False
    for e in elements:
        if make(e):
            for n in names:
                if n == e:
                    bad = True
            break  # BAD loops-reach-every-element
    return bad


def every(elements):
    for e in elements:
        if make(e):
            return False
    return True


def first(elements):
    out = []
    for e in elements:
        out.append(use(elements[0], e))  # BAD the-element-is-used
    return out


def ignored(elements, x):
    for e in elements:  # BAD the-element-is-used
        use(x)


def shrinks(elements):
    for e in elements:
        if make(e):
            elements.remove(e)  # BAD collection-stable-while-iterated


def shrinks_copy(elements):
    for e in list(elements):
        if make(e):
            elements.remove(e)


def positions(n):
    values = [make(x) for x in range(n)]
    gone = []
    for i, v in enumerate(values):
        if v is None:
            gone.append(i)
    for i in gone:
        values.pop(i)  # BAD collection-stable-while-iterated
    return values


def positions_down(n):
    values = [make(x) for x in range(n)]
    gone = []
    for i, v in enumerate(values):
        if v is None:
            gone.append(i)
    for i in reversed(gone):
        values.pop(i)
    return values


def twice(elements):
    it = map(make, elements)
    use(list(it))
    return list(it)  # BAD iterators-are-used-once


def inner(elements, others):
    pairs = itertools.product(others, others)
    for e in elements:
        for a, b in pairs:  # BAD iterators-are-used-once
            use(e, a, b)


def inner_fresh(elements, others):
    for e in elements:
        pairs = itertools.product(others, others)
        for a, b in pairs:
            use(e, a, b)


def sharing(elements):
    slc = {}
    out = []
    for e in elements:
        slc['x'] = make(e)
        out.append(slc)  # BAD elements-do-not-share-containers
    return out


def sharing_alias(elements, rows):
    template = {'x': 1}
    for e in elements:
        row = template
        row['y'] = make(e)
        rows.append(row)  # BAD elements-do-not-share-containers


def own(elements):
    out = []
    for e in elements:
        slc = {}
        slc['x'] = make(e)
        out.append(slc)
    return out


def paired(a, b):
    out = {}
    for x, y in zip(a, b):  # BAD paired-collections-have-one-length
        out[x] = y
    return out


def paired_checked(a, b):
    if len(a) != len(b):
        raise ValueError(a)
    out = {}
    for x, y in zip(a, b):
        out[x] = y
    return out


def paired_same(a):
    return dict(zip([make(x) for x in a], a)), [(x, i) for x, i in zip(a, range(len(a)))]


def not_first(a):
    for x in a[1:]:  # BAD the-whole-collection-is-iterated
        use(x)


def not_last(a):
    for i in range(len(a) - 1):  # BAD the-whole-collection-is-iterated
        use(i)


def first_apart(a):
    use(a[0])
    for x in a[1:]:
        use(x)


def last_in_with(elements):
    for e in elements:
        with use(e):
            crs = make(e)
    return crs  # BAD last-element-does-not-win


def make(e):
    return e


def use(*args):
    return args

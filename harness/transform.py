PROPERTIES = ['C09', 'C10']

import math

from symx.api import harness
from svgpy.geometry.matrix import DOMMatrix, DOMMatrixReadOnly
from svgpy.transform import SVGTransform, SVGTransformList
from harness.ref import (IDENT, from2d, mat_mul, rot_z, scaling, skew_x,
                         skew_y, translation)
from harness.geometry_matrix import rows

T = SVGTransform
KINDS = {
    'matrix': T.SVG_TRANSFORM_MATRIX,
    'translate': T.SVG_TRANSFORM_TRANSLATE,
    'translate1': T.SVG_TRANSFORM_TRANSLATE,
    'scale': T.SVG_TRANSFORM_SCALE,
    'scale1': T.SVG_TRANSFORM_SCALE,
    'rotate': T.SVG_TRANSFORM_ROTATE,
    'rotate3': T.SVG_TRANSFORM_ROTATE,
    'skewX': T.SVG_TRANSFORM_SKEWX,
    'skewY': T.SVG_TRANSFORM_SKEWY,
}
NAME = {k: k.rstrip('13') for k in KINDS}
ANGLE = ('rotate', 'rotate3', 'skewX', 'skewY')


def values(t, kind, pre, num=None):
    num = num or t.real
    n = {'matrix': 6, 'translate': 2, 'translate1': 1, 'scale': 2,
         'scale1': 1, 'rotate': 1, 'rotate3': 3, 'skewX': 1, 'skewY': 1}[kind]
    v = [num(pre + 'v%d' % i) for i in range(n)]
    return v


def angle_values(t, kind, pre):
    if kind not in ANGLE:
        return values(t, kind, pre)
    a = t.angle(pre + 'ang')
    if kind.startswith('skew'):
        t.assume(math.cos(math.radians(a)) != 0)
    rest = [t.real(pre + 'cx'), t.real(pre + 'cy')] if kind == 'rotate3' \
        else []
    return [a] + rest


def ref_matrix(kind, v):
    if kind == 'matrix':
        return from2d(*v)
    if kind == 'translate':
        return translation(v[0], v[1])
    if kind == 'translate1':
        return translation(v[0], 0)
    if kind == 'scale':
        return scaling(v[0], v[1])
    if kind == 'scale1':
        return scaling(v[0], v[0])
    if kind == 'rotate':
        return rot_z(v[0])
    if kind == 'rotate3':
        return mat_mul(mat_mul(translation(v[1], v[2]), rot_z(v[0])),
                       translation(-v[1], -v[2]))
    if kind == 'skewX':
        return skew_x(v[0])
    return skew_y(v[0])


def full(kind, v):
    if kind in ('translate1', ):
        return [v[0], 0]
    if kind == 'scale1':
        return [v[0], v[0]]
    if kind == 'rotate':
        return [v[0], 0, 0]
    return list(v)


# ---------------------------------------------------------------- C09

@harness('C09', cases=[dict(kind=k, via=v) for k in KINDS
                       for v in ('ctor', 'set', 'method')])
def c09_single(t, kind, via):
    """Every transform function denotes its SVG matrix and reports its type,
    values and angle, however it was built."""
    v = angle_values(t, kind, '')
    if via == 'ctor':
        f = SVGTransform(KINDS[kind], *v)
    elif via == 'set':
        f = SVGTransform(T.SVG_TRANSFORM_ROTATE, 12, 3, 4)
        f.set(KINDS[kind], *v)
    else:
        f = SVGTransform(T.SVG_TRANSFORM_SKEWX, 5)
        if kind == 'matrix':
            f.set_matrix(DOMMatrixReadOnly(v))
        else:
            getattr(f, {'translate': 'set_translate', 'scale': 'set_scale',
                        'rotate': 'set_rotate', 'skewX': 'set_skew_x',
                        'skewY': 'set_skew_y'}[NAME[kind]])(*v)
    t.check(f.type == KINDS[kind], 'type')
    t.eq(list(f.values), full(kind, v), 'values')
    t.eq(f.angle, v[0] if kind in ANGLE else 0, 'angle')
    m = f.matrix
    t.eq(rows(m), ref_matrix(kind, v), 'matrix')
    t.check(m.is2d is True, '2d')


PAIRS = [('translate', 'scale'), ('rotate3', 'translate'),
         ('scale', 'skewX'), ('matrix', 'matrix'), ('skewY', 'rotate'),
         ('translate1', 'matrix'), ('scale1', 'translate'),
         ('rotate', 'rotate3'), ('matrix', 'skewX')]
TRIPLES = [('translate', 'rotate', 'scale'), ('matrix', 'matrix', 'matrix'),
           ('skewX', 'translate', 'skewY'), ('scale', 'rotate3', 'matrix')]


@harness('C09', cases=[dict(kinds=p) for p in PAIRS + TRIPLES])
def c09_product(t, kinds):
    """A list denotes the product of its members in order; consolidating it
    leaves one matrix transform with that product."""
    exp = IDENT
    lst = SVGTransformList()
    for i, k in enumerate(kinds):
        v = angle_values(t, k, 't%d_' % i)
        lst.append(SVGTransform(KINDS[k], *v))
        exp = mat_mul(exp, ref_matrix(k, v))
    t.eq(rows(lst.matrix), exp, 'product in list order')
    t.check(len(lst) == len(kinds), 'length')
    one = lst.transform
    t.check(one.type == T.SVG_TRANSFORM_MATRIX, 'matrix transform')
    t.eq(rows(one.matrix), exp, 'transform')
    t.check(len(lst) == len(kinds), 'list untouched by reading')
    r = lst.consolidate()
    t.check(len(lst) == 1, 'one member after consolidation')
    t.check(lst[0] is r, 'returns the member')
    t.check(r.type == T.SVG_TRANSFORM_MATRIX, 'matrix member')
    t.eq(rows(lst.matrix), exp, 'same effect after consolidation')


@harness('C09')
def c09_point(t):
    """Mapping a point by the list = mapping by the last transform first."""
    v = [t.real('a%d' % i) for i in range(6)]
    w = [t.real('b%d' % i) for i in range(6)]
    x, y = t.real('x'), t.real('y')
    f = SVGTransform(T.SVG_TRANSFORM_MATRIX, *v)
    g = SVGTransform(T.SVG_TRANSFORM_MATRIX, *w)
    lst = SVGTransformList([f, g])
    p = lst.matrix.transform_point(x, y)
    q = f.matrix.transform_point(*g.matrix.transform_point(x, y))
    t.eq(list(p), list(q), 'composition order')


@harness('C09')
def c09_from_matrix(t):
    """Only 2d matrices become transforms; components are kept."""
    v = [t.real('v%d' % i) for i in range(6)]
    f = t.choice('how', [SVGTransform.from_matrix,
                         SVGTransformList.create_svg_transform_from_matrix])
    r = f(DOMMatrix(v))
    t.eq(list(r.values), v, 'components')
    w = [t.real('w%d' % i) for i in range(16)]
    t.rejects('3d matrix rejected', ValueError, f, DOMMatrix(w))


@harness('C09')
def c09_unknown(t):
    """Unknown transforms denote nothing; invalid types are rejected."""
    f = SVGTransform(T.SVG_TRANSFORM_ROTATE, t.real('a'))
    f.set(T.SVG_TRANSFORM_UNKNOWN)
    t.check(f.matrix is None and f.values is None and f.angle == 0
            and f.tostring() == '', 'unknown transform is empty')
    k = t.int('k')
    t.assume(t.Or(k < 0, k > 6))
    t.rejects('unknown type', ValueError, f.set, k, 1)
    t.check(SVGTransformList().matrix is None, 'empty list has no matrix')
    t.check(SVGTransformList().consolidate() is None, 'nothing to do')


LIST_OPS = ['append', 'append_item', 'insert', 'insert_item_before',
            'remove_item', 'replace_item', 'initialize', 'clear', 'setitem',
            'delitem', 'iadd', 'add', 'pop', 'reverse', 'get_item', 'slice']


@harness('C09', cases=[dict(n=n, steps=s) for n, s in ((0, 1), (1, 1),
                                                       (3, 1), (2, 2))])
def c09_list(t, n, steps):
    """The list behaves as a sequence of transforms under any history of its
    operations; anything else is rejected and changes nothing."""
    base = [SVGTransform(T.SVG_TRANSFORM_TRANSLATE, i, 0) for i in range(n)]
    lst = SVGTransformList(base)
    ref = list(base)
    for s in range(steps):
        op = t.choice('op%d' % s, LIST_OPS)
        new = SVGTransform(T.SVG_TRANSFORM_SCALE, s + 2)
        bad = t.bool('bad%d' % s) if op in (
            'append', 'append_item', 'insert', 'insert_item_before',
            'replace_item', 'initialize', 'setitem', 'slice') else False
        item = 'scale(2)' if bad else new
        i = t.choice('i%d' % s, list(range(-1, len(ref) + 1)))
        before = list(ref)
        try:
            if op in ('append', 'append_item'):
                r = getattr(lst, op)(item)
                if op == 'append_item':
                    t.check(r is item, 'returns the item')
                ref.append(item)
            elif op == 'insert':
                lst.insert(i, item)
                ref.insert(i, item)
            elif op == 'insert_item_before':
                t.check(lst.insert_item_before(item, i) is item,
                        'returns the item')
                ref.insert(i, item)
            elif op == 'remove_item':
                r = lst.remove_item(i)
                t.check(r is ref[i], 'returns the removed item')
                del ref[i]
            elif op == 'replace_item':
                lst.replace_item(item, i)
                ref[i] = item
            elif op == 'initialize':
                t.check(lst.initialize(item) is item, 'returns the item')
                ref[:] = [item]
            elif op == 'clear':
                lst.clear()
                del ref[:]
            elif op == 'setitem':
                lst[i] = item
                ref[i] = item
            elif op == 'slice':
                lst[i:] = [new, item]
                ref[i:] = [new, item]
            elif op == 'delitem':
                del lst[i]
                del ref[i]
            elif op == 'iadd':
                lst += [new]
                ref += [new]
            elif op == 'add':
                q = lst + SVGTransformList([new])
                t.check(len(q) == len(ref) + 1, 'sum length')
                t.check(q.tostring() == ' '.join(
                    x.tostring() for x in ref + [new]), 'sum')
            elif op == 'pop':
                t.check(lst.pop() is ref[-1], 'pop')
                del ref[-1]
            elif op == 'reverse':
                lst.reverse()
                ref.reverse()
            else:
                t.check(lst.get_item(i) is ref[i], 'get_item')
        except IndexError:
            t.check(list(lst) == before or op == 'initialize',
                    'unchanged after an index error')
            j = i if i >= 0 else i + len(before)
            t.check(not 0 <= j < len(before) or op == 'pop'
                    and not before, 'index error only out of range')
            return
        except TypeError:
            t.check(bad, 'type error only for other values')
            if op != 'initialize':
                t.check(list(lst) == before, 'unchanged after a type error')
            return
        t.check(not bad, 'other values are rejected')
        t.check(list(lst) == ref, 'same members')
        t.check(len(lst) == lst.length == lst.number_of_items == len(ref),
                'length')


# ---------------------------------------------------------------- C10

def dec(t, name):
    return t.decimal(name, 2, 2)


@harness('C10', cases=[dict(kind=k, delim=d) for k in KINDS
                       for d in (None, ' ', ',')])
def c10_roundtrip(t, kind, delim):
    """Serialising a transform and parsing the text gives an equal transform
    (values with up to two decimals)."""
    if kind == 'matrix':
        v = [t.decimal('v%d' % i, 1, 1 if i == 0 else 0) for i in range(6)]
    else:
        few = t.tier == 'quick' and (delim is not None or kind == 'rotate3')
        v = values(t, kind, '', lambda n: dec(t, n) if not few
                   else t.decimal(n, 1, 1))
    f = SVGTransform(KINDS[kind], *v)
    lst = SVGTransformList.parse(f.tostring(delim))
    t.check(len(lst) == 1, 'one transform')
    t.check(lst[0].type == KINDS[kind], 'same type')
    t.eq(list(lst[0].values), full(kind, v), 'same values')


@harness('C10', cases=[dict(k1=a, k2=b) for a, b in (
    ('translate', 'rotate'), ('scale1', 'skewX'), ('skewY', 'translate1'),
    ('rotate', 'scale1'))])
def c10_list(t, k1, k2):
    """Lists keep their order through text."""
    v = values(t, k1, 'a', lambda n: t.decimal(n, 1, 1))
    w = values(t, k2, 'b', lambda n: t.decimal(n, 1, 1))
    lst = SVGTransformList([SVGTransform(KINDS[k1], *v),
                            SVGTransform(KINDS[k2], *w)])
    out = SVGTransformList(lst.tostring())
    t.check(len(out) == 2, 'two transforms')
    t.check([x.type for x in out] == [KINDS[k1], KINDS[k2]], 'same types')
    t.eq([list(x.values) for x in out], [full(k1, v), full(k2, w)],
         'same values')


def float_text(t, name, n):
    """Text of n characters in the SVG number grammar (exponents of one
    digit)."""
    s = t.text(name, n, '0123456789.+-eE')
    i = 0
    if s[0] in '+-':
        i = 1
    j = i
    while j < n and s[j] in '0123456789':
        j += 1
    nint = j - i
    nfrac = 0
    if j < n and s[j] == '.':
        k = j + 1
        while k < n and s[k] in '0123456789':
            k += 1
        nfrac = k - j - 1
        j = k
        t.assume(nint + nfrac > 0)
    else:
        t.assume(nint > 0)
    if j < n:
        t.assume(s[j] in 'eE')
        j += 1
        if j < n and s[j] in '+-':
            j += 1
        d = j
        while j < n and s[j] in '0123456789':
            j += 1
        t.assume(j == n and j == d + 1)
    return s


@harness('C10', cases=[dict(n=n) for n in (1, 2, 3, 4)] + [
    dict(n=5, _tier='thorough'), dict(n=6, _tier='thorough')])
def c10_number(t, n):
    """Every number of the SVG grammar is read with its value."""
    s = float_text(t, 's', n)
    lst = SVGTransformList.parse('translate(' + s + ' 7)')
    t.check(len(lst) == 1, 'one transform')
    t.eq(list(lst[0].values), [float(s), 7], 'values')


@harness('C10', cases=[dict(kind=k, n=n) for k in ('translate', 'rotate3')
                       for n in (1, 2)] + [dict(kind='matrix', n=1)])
def c10_separators(t, kind, n):
    """Comma and white space separate numbers and transforms in every way the
    grammar allows."""
    sep = t.text('sep', n, ' ,\t\n')
    t.assume(n == 1 or not (sep[0] == ',' and sep[1] == ','))
    pad = t.text('pad', 1, ' \t\n')
    gap = t.text('gap', 1, ' ,\n')
    cnt = {'translate': 2, 'rotate3': 3, 'matrix': 6}[kind]
    v = [5, -3, 0.5, 8, 1, -2][:cnt]
    body = sep.join(str(x) for x in v)
    text = pad + NAME[kind] + pad + '(' + pad + body + pad + ')' + gap + \
        'skewX(3)' + pad
    lst = SVGTransformList.parse(text)
    t.check(len(lst) == 2, 'two transforms')
    t.check(lst[0].type == KINDS[kind], 'first type')
    t.eq(list(lst[0].values), v, 'values')
    t.check(lst[1].type == T.SVG_TRANSFORM_SKEWX, 'second type')
    t.eq(list(lst[1].values), [3], 'second value')

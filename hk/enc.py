"""Canonical, type-tagged encoding of Python data for the TLA+ side.

Two data values are encoded to the same string iff they are the same value of
the same type (1, True and 1.0 differ; dict order does not matter).
"""
import decimal
import re


def esc(s):
    out = []
    for ch in s:
        if ch.isalnum() and ord(ch) < 128 or ch in ' _.-/:;=()<>+*@!?|$':
            out.append(ch)
        else:
            out.append('%{:X};'.format(ord(ch)))
    return ''.join(out)


def unesc(s):
    return re.sub('%([0-9A-F]+);', lambda m: chr(int(m.group(1), 16)), s)


class Raw(str):
    """a string that is already rendered canonically"""


def enc(v):
    if v is None:
        return 'null'
    if v is True:
        return 'b:1'
    if v is False:
        return 'b:0'
    t = type(v)
    if t is int:
        return 'i:%d' % v
    if t is float:
        return 'f:%r' % v
    if t is str:
        return 's:' + esc(v)
    if t is Raw:
        return 's:' + v
    if t is list:
        return 'l[' + ','.join(enc(i) for i in v) + ']'
    if t is tuple:
        return 't(' + ','.join(enc(i) for i in v) + ')'
    if t in (set, frozenset):
        return 'e{' + ','.join(sorted(enc(i) for i in v)) + '}'
    if isinstance(v, dict):
        kv = sorted((k if type(k) is str else enc(k), enc(x))
                    for k, x in v.items())
        return 'd{' + ','.join(esc(k) + '=' + x for k, x in kv) + '}'
    if t is bytes:
        return 'y:' + v.hex()
    if isinstance(v, decimal.Decimal):
        return 'm:%s' % v
    return 'o:' + esc(t.__name__) + '/' + esc(str(v))


def val(v):
    """TLA+ value record for a piece of data"""
    if v is None:
        return {'t': 'null', 's': 'null', 'kk': [], 'c': []}
    if type(v) in (list, tuple):
        return {'t': 'l', 's': enc(v), 'kk': [], 'c': [val(i) for i in v]}
    if isinstance(v, dict):
        ks = sorted(v)
        return {'t': 'd', 's': enc(v), 'kk': ks, 'c': [val(v[k]) for k in ks]}
    return {'t': 'x', 's': enc(v), 'kk': [], 'c': []}


def opts(o):
    """options mapping -> sorted list of [name, canonical value]"""
    return [[k, enc(v)] for k, v in sorted((o or {}).items())]

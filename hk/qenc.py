"""hiku.query <-> query trees of the specification."""
from hiku.query import Field, Link, Node

from .enc import opts as enc_opts


def encode(node):
    return {'ord': bool(node.ordered),
            'fields': [item(f) for f in node.fields]}


def item(f):
    link = type(f) is Link
    return {'k': 'l' if link else 'f', 'name': f.name, 'alias': f.alias or '',
            'opts': enc_opts(f.options),
            'node': encode(f.node) if link else {'ord': False, 'fields': []}}


def decode(n, value):
    """value: canonical option value -> python value"""
    return Node([ditem(f, value) for f in n['fields']], ordered=n['ord'])


def ditem(f, value):
    o = {k: value(v) for k, v in f['opts']} or None
    if f['k'] == 'l':
        return Link(f['name'], decode(f['node'], value), o, f['alias'] or None)
    return Field(f['name'], o, f['alias'] or None)


def explore(q, keys):
    """whatever a query can tell of itself, told before it is executed"""
    list(q.fields_map), list(q.result_map)
    for f in q.fields:
        if keys:
            f.result_key, f.options_key, f.index_key, f == f
        if hasattr(f, 'node'):
            explore(f.node, keys)

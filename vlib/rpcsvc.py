"""Property C32: receiver types for RPC services, as Go source and as descriptions for the specification."""
import random

PARAMS = ['int', 'string', 'bool', '[]int', 'map[string]int', '*Thing', 'interface{}', 'context.Context', 'rpc.ID', 'uint64', 'float64', 'Thing']
TYPE = {'*Thing': '*rpcsvc.Thing', 'Thing': 'rpcsvc.Thing', 'interface{}': 'interface {}'}
RESULTS = ['int', 'string', 'bool', 'error', '*rpc.Subscription', 'rpc.Subscription', '*Thing', 'interface{}', '[]int']
NAMES = ['Get', 'GetAb', 'Send', 'A', 'AB', 'X_y', 'Subscribe', 'URL', 'Événement', 'Σum', 'Modules', 'Logs', 'Z9', 'Call', 'B_subscribe', 'NewHeads']
UNEXPORTED = ['get', 'send', 'a', 'éa', 'logs']


def outs(r):
    return r.choice([[], ['int'], ['string'], ['error'], ['int', 'error'], ['string', 'error'], ['error', 'int'], ['int', 'string'],
                     ['int', 'string', 'error'], ['error', 'error'], ['*rpc.Subscription', 'error'], ['rpc.Subscription', 'error'],
                     ['*rpc.Subscription'], ['interface{}', 'error'], ['*Thing', 'error'], ['[]int'], ['bool'], ['*rpc.Subscription', 'error'],
                     [r.choice(RESULTS) for _ in range(r.randrange(4))]])


def method(r, name, recv, tname):
    ins = [r.choice(PARAMS) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))]
    if r.random() < 0.5:
        ins = ['context.Context'] + ins
    o = outs(r)
    ps = ', '.join('p%d %s' % (k, t) for k, t in enumerate(ins))
    args = ''.join(', p%d' % k for k in range(len(ins)))
    body = '\tw := enter("%s.%s"%s)\n' % (tname, name, args)
    body += '\t_ = w\n' if not o else '\treturn ' + ', '.join('result[%s](w)' % t if t != 'error' else 'w.err' for t in o) + '\n'
    src = 'func (%s) %s(%s) (%s) {\n%s}\n\n' % (recv, name, ps, ', '.join(o), body)
    return src, ins, o


def generate(seed, n):
    """Returns Go source and the list of receivers: dicts with the methods of their type."""
    r = random.Random('svc-%d' % seed)
    src = 'package rpcsvc\n\nimport (\n\t"context"\n\n\t"flychain/rpc"\n)\n\nvar _ context.Context\nvar _ rpc.ID\n\n'
    types = []
    recv = []
    make = []
    for k in range(n):
        name = 'T%d' % k
        base = r.choice([t for t in types if t['kind'] == 'struct'] or [None]) if r.random() < 0.35 else None
        kind = 'struct' if base else r.choice(['struct', 'struct', 'struct', 'int', 'map[string]int', 'func()'])
        ms = {}
        src += 'type %s %s\n\n' % (name, 'struct{ %s }' % base['name'] if base else 'struct{}' if kind == 'struct' else kind)
        if base:
            for m in base['methods'].values():
                ms[m['n']] = dict(m)
        for m in r.sample(NAMES, r.choice([0, 1, 2, 3, 5, 8])) + r.sample(UNEXPORTED, r.choice([0, 0, 1, 2])):
            ptr = r.random() < 0.4
            s, ins, o = method(r, m, ('*' if ptr else '') + name, name)
            src += s
            ms[m] = dict(n=m, key='%s.%s' % (name, m), ptr=int(ptr), ins=ins, outs=o)
        types.append(dict(name=name, kind=kind, methods=ms))
        zero = {'struct': name + '{}', 'int': name + '(3)', 'map[string]int': name + '{}', 'func()': name + '(func() {})'}[kind]
        for ptr in (0, 1):
            make.append(('func() interface{} { x := %s; return &x }()' if ptr else '%s') % zero)
            recv.append(dict(ptr=ptr, methods=[dict(n=[ord(c) for c in m['n']], key=m['key'], ptr=m['ptr'],
                                                    ins=[TYPE.get(t, t) for t in m['ins']], outs=[TYPE.get(t, t) for t in m['outs']])
                                               for m in ms.values()]))
    src += 'var receivers = []interface{}{\n' + ''.join('\t%s,\n' % m for m in make) + '}\n'
    return src, recv

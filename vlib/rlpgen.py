"""Property C24: types for the RLP code generator, as Go source and as descriptions for the specification."""
import json
import os
import random
import re

from .common import crash
from .core import HARNESS, REPO, Infra, goenv, run

PRE = '''package gen

import (
	"io"
	"math/big"

	"verifharness/rlpgen/other"
	"verifharness/rlpgen/rlp"
	"verifharness/rlpgen/third"
)

var _ third.Hash
var _ big.Int
var _ rlp.RawValue
var _ other.Rec

// Ext has its own encoding: a list of one string.
type Ext struct{ B []byte }

func (x *Ext) EncodeRLP(w io.Writer) error {
	e := rlp.NewEncoderBuffer(w)
	if x == nil {
		e.Write(rlp.EmptyList)
		return e.Flush()
	}
	l := e.List()
	e.WriteBytes(x.B)
	e.ListEnd(l)
	return e.Flush()
}

func (x *Ext) DecodeRLP(s *rlp.Stream) error {
	if _, err := s.List(); err != nil {
		return err
	}
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	x.B = b
	return s.ListEnd()
}

type EncOnly struct{ A uint64 }

func (x *EncOnly) EncodeRLP(w io.Writer) error { return nil }

type DecOnly struct{ A uint64 }

func (x *DecOnly) DecodeRLP(s *rlp.Stream) error { return nil }

type ValDec struct{ A uint64 }

func (x ValDec) DecodeRLP(s *rlp.Stream) error { return nil }

type Arr5 [5]byte

'''
U8 = {'k': 'uint', 'n': 1}


def T(k, src, **kw):
    return dict({'k': k, 'src': src, 'n': 0, 'e': [], 'fs': []}, **kw)


class Types:
    def __init__(self, rng):
        self.r = rng
        self.named = [T('struct', 'other.Rec', fs=[field('A', uint(8)), field('B', T('string', 'string'))]),
                      T('struct', 'other.Opt', fs=[field('A', uint(2)), field('B', T('bytes', '[]byte'), opt=1)]),
                      T('struct', 'third.Pair', fs=[field('A', uint(4)), field('B', T('slice', '[]string', e=[T('string', 'string')]))])]
        self.src = PRE
        self.tops = {}

    def leaf(self, bad):
        r = self.r
        if bad and r.random() < 0.5:
            return r.choice([T('int', 'int'), T('int', 'int64'), T('uintany', 'uint'), T('float', 'float64'), T('complex', 'complex128'), T('map', 'map[string]uint64'), T('chan', 'chan int'), T('func', 'func()'),
                             T('iface', 'interface{}'), T('array', '[3]uint64'), T('array', '[2]string'), T('enconly', '*EncOnly'), T('deconly', '*DecOnly'), T('valdec', 'ValDec'),
                             T('valdec', '*ValDec'), T('int', 'int8'), T('float', 'float32'), T('array', '[2][4]byte'), T('iface', 'error')])
        return r.choice([T('bool', 'bool'), uint(1), uint(2), uint(4), uint(8), uint(8), T('string', 'string'), T('bytes', '[]byte'), T('bytes', '[]byte'),
                         T('barray', '[%d]byte' % (n := r.choice([0, 1, 3, 20, 32, 60])), n=n), T('barray', 'other.Addr', n=20), T('barray', 'third.Hash', n=32), T('barray', 'Arr5', n=5),
                         T('big', 'big.Int'), T('bigptr', '*big.Int'), T('bigptr', '*big.Int'), T('raw', 'rlp.RawValue'), T('ext', '*Ext')])

    def typ(self, depth, bad=False):
        r = self.r
        x = r.random()
        if depth == 0 or x < 0.45:
            return self.leaf(bad)
        if x < 0.62:
            e = self.typ(depth - 1, bad)
            while e['k'] in ('ptr', 'bigptr', 'big', 'ext', 'enconly', 'deconly', 'valdec', 'iface', 'func', 'map', 'chan'):
                e = self.typ(depth - 1, bad)
            if e['k'] == 'raw':  # see DESIGN: *rlp.RawValue is not supported
                return e
            return T('ptr', '*' + e['src'], e=[e])
        if x < 0.80:
            e = self.typ(depth - 1, bad)
            if not used(e):  # see DESIGN: slices of structs without content are not supported
                return e
            return T('slice', '[]' + e['src'], e=[e]) if e != uint(1) else T('bytes', '[]byte')
        if x < 0.9:
            return self.r.choice(self.named)
        return self.struct(depth - 1, bad, 3)

    def struct(self, depth, bad=False, most=7, anon=True):
        r = self.r
        n = most if most > 7 else r.randint(0, most)
        opt = r.randint(0, n) if r.random() < 0.5 else n
        fs = []
        for k in range(n):
            t = self.typ(depth, bad)
            f = field('F%d' % k, t)
            tag = []
            if r.random() < 0.07:
                f['name'], f['exp'] = 'f%d' % k, 0
                if r.random() < 0.5:
                    t = f['t'] = T('int', 'int')
            elif r.random() < 0.06:
                f['ign'] = 1
                tag.append('-')
                if r.random() < 0.5:
                    t = f['t'] = T('map', 'map[string]int')
            else:
                if t['k'] in ('ptr', 'bigptr', 'ext') and r.random() < 0.5:
                    f['nil'] = r.choice(['nil', 'nil', 'nilString', 'nilList'])
                    tag.append(f['nil'])
                if k >= opt:
                    f['opt'] = 1
                    tag.append('optional')
                if bad and r.random() < 0.5 and t['k'] in ('slice', 'bytes') and k == n - 1 and not f['opt']:
                    f['tail'] = 1
                    tag.append('tail')
                if bad and r.random() < 0.04:
                    f['unknown'] = 1
                    tag.append('omitempty')
            f['tag'] = ' `rlp:"%s"`' % ','.join(tag) if tag else ''
            fs.append(f)
        if anon:
            src = 'struct{ ' + '; '.join('%s %s%s' % (f['name'], f['t']['src'], f['tag']) for f in fs) + ' }'
            return T('struct', src, fs=fs)
        return fs

    def declare(self, name, bad=False, depth=3, most=7):
        fs = self.struct(depth, bad, most, False)
        self.src += 'type %s struct {\n%s}\n\n' % (name, ''.join('\t%s %s%s\n' % (f['name'], f['t']['src'], f['tag']) for f in fs))
        return T('struct', name, fs=fs)

    def generate(self, count):
        for k in range(4):
            self.named.append(self.declare('Aux%d' % k, depth=1))
        for k in range(count):
            name = 'T%d' % k
            if k % 20 == 0:  # many fields and temporaries
                d = self.declare(name, depth=1, most=self.r.randint(20, 45))
            elif k % 20 == 7:  # unsupported only by its last field
                d = self.declare(name, depth=1)
                self.src = self.src.rsplit('type %s struct' % name, 1)[0]
                t = self.r.choice([T('slice', '[]uint64', e=[uint(8)]), T('bytes', '[]byte'), T('slice', '[]string', e=[T('string', 'string')])])
                d['fs'] = [f for f in d['fs'] if not f['opt']] + [field('Last', t, tail=1, tag=' `rlp:"tail"`')]
                self.src += 'type %s struct {\n%s}\n\n' % (name, ''.join('\t%s %s%s\n' % (f['name'], f['t']['src'], f['tag']) for f in d['fs']))
            else:
                d = self.declare(name, bad=k % 4 == 3)
            self.tops[name] = d
            if not broken(d) and self.r.random() < 0.05 and len(self.named) < 14:
                self.named.append(d)


def uint(n):
    return T('uint', {1: 'uint8', 2: 'uint16', 4: 'uint32', 8: 'uint64'}[n], n=n)


def field(name, t, **kw):
    return dict({'name': name, 'exp': 1, 'ign': 0, 'opt': 0, 'nil': '', 'tail': 0, 'unknown': 0, 'tag': '', 't': t}, **kw)


def used(d):
    """Whether a value of the type has anything to write."""
    return d['k'] != 'struct' or any(f['exp'] and not f['ign'] and used(f['t']) for f in d['fs'])


BAD = ('int', 'uintany', 'float', 'complex', 'map', 'chan', 'func', 'iface', 'array', 'enconly', 'deconly', 'valdec')


def broken(d):
    """Only used to choose types; the specification decides on its own."""
    return d['k'] in BAD or any(broken(e) for e in d['e']) or any(f['exp'] and not f['ign'] and (f['tail'] or f['unknown'] or broken(f['t'])) for f in d['fs'])


def strip(d):
    """The description the specification reads."""
    return {'k': d['k'], 'n': d['n'], 'e': [strip(e) for e in d['e']],
            'fs': [{k: f[k] for k in ('exp', 'ign', 'opt', 'nil', 'tail', 'unknown')} | {'t': strip(f['t'])} for f in d['fs']]}


def c24(ctx):
    count = ctx.pick(160, 700)
    types = Types(random.Random(ctx.seed * 7919 + 24))
    types.generate(count)
    gentest = os.path.join(REPO, 'rlp/rlpgen/gen_test.go')
    tool = ctx.go_build('flychain/rlp/rlpgen', extra_overlay={gentest: os.path.join(HARNESS, 'overlay/rlpgen_test.go.txt')})
    root = os.path.join(ctx.scratch, 'harness')
    gen = os.path.join(root, 'rlpgen/gen')
    open(os.path.join(gen, 'types.go'), 'w').write(types.src)
    outs = []
    for k in range(2):
        out = ctx.tmp('gen.json')
        r = run([tool, '-test.run', '^TestGenerate$', '-test.timeout', '120s'], env=dict(goenv(), VGEN_ROOT=root, VGEN_OUT=out), cwd=ctx.scratch, timeout=200)
        if r.returncode != 0 or not os.path.exists(out):
            text = r.stdout + r.stderr
            if re.search(r'^(panic:|fatal error:|runtime: goroutine stack)', text, re.M) and 'rlp/rlpgen/' in text:
                ctx.violation('generator crash', 'the generator crashed: ' + text[:1500], {'kind': 'crash', 'text': text[:6000], 'seed': ctx.seed})
                return
            raise Infra('running the generator failed: ' + text[-3000:])
        outs.append(json.load(open(out)))
    recs, good = [], {}
    for name, d in types.tops.items():
        a, b = outs[0][name], outs[1][name]
        ok = not a[0].startswith(('ERROR ', 'PANIC '))
        recs.append({'kind': 'gen', 'type': name, 'ok': 1 if ok else 0, 'panic': 1 if any(x.startswith('PANIC ') for x in a) else 0,
                     'same': 1 if a == b and a[0] == a[3] else 0, 'agree': 1 if len({x.startswith(('ERROR ', 'PANIC ')) for x in a}) == 1 else 0, 'msg': a[0][:200] if not ok else ''})
        if ok:
            good[name] = a
    # the generated files must compile; those that do not are reported and left out
    pending = dict(good)
    for attempt in range(4):
        for f in os.listdir(gen):
            if f.startswith('gen_') and f != 'gen_test.go':
                os.remove(os.path.join(gen, f))
        for k, (name, a) in enumerate(sorted(pending.items())):
            if k % 2 == 0:
                open(os.path.join(gen, 'gen_both_%s.go' % name), 'w').write(a[0])
            else:
                open(os.path.join(gen, 'gen_enc_%s.go' % name), 'w').write(a[1])
                open(os.path.join(gen, 'gen_dec_%s.go' % name), 'w').write(a[2])
        open(os.path.join(gen, 'list.go'), 'w').write('package gen\n\ntype entry struct {\n\tname string\n\tmake func() both\n}\n\ntype both interface {\n\trlp.Encoder\n\trlp.Decoder\n}\n\nvar list = []entry{\n%s}\n'.replace(
            'package gen\n', 'package gen\n\nimport "verifharness/rlpgen/rlp"\n') % ''.join('\t{"%s", func() both { return new(%s) }},\n' % (n, n) for n in sorted(pending)))
        r = run(['go', 'build', '-gcflags=-e', './rlpgen/gen'], cwd=root, env=goenv(), timeout=300)
        text = r.stdout + r.stderr
        if r.returncode == 0:
            break
        bad = set(re.findall(r'gen_(?:both|enc|dec)_(T\d+)\.go:\d+', text))
        if not bad:
            raise Infra('building the generated code failed: ' + text[-3000:])
        for name in sorted(bad):
            line = next(x for x in text.splitlines() if '_%s.go:' % name in x)
            ctx.violation('compile ' + re.sub(r'^\S+ ', '', line), 'generated code for %s does not compile: %s' % (json.dumps(strip(types.tops[name]))[:300], line),
                          {'kind': 'compile', 'type': types.tops[name], 'code': good[name][0], 'error': line, 'seed': ctx.seed})
            pending.pop(name)
    else:
        return
    ctx.note(types=count, generated=len(good), refused=count - len(good))
    if pending:
        b = ctx.go_build('./rlpgen/gen')
        for k, evs in sorted(ctx.drive(b, len(pending) * ctx.pick(40, 200)).items()):
            recs += crash(ctx, evs, 'generated code', k)
    for r in recs:
        r['t'] = strip(types.tops[r['type']])
    ctx.note(encodings=sum(r['kind'] == 'enc' for r in recs), decodings=sum(r['kind'] == 'dec' for r in recs), accepted=sum(r['kind'] == 'dec' and r['ok'] for r in recs))
    ctx.sample(json.dumps(next(r for r in recs if r['kind'] == 'enc' and len(r['out']) > 8))[:600])
    ctx.check_records('RlpGen', recs, what='RLP code generator', key=lambda r, exp: r['kind'] + ' ' + exp if exp else json.dumps(r, sort_keys=True), timeout=ctx.pick(400, 3000), chunk=4000)

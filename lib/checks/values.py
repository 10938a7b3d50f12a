"""C26: text services (Utf8.tla, Text.tla); C27: the values things are made of (Values.tla)."""
import build, tlc, suite, gen
from suite import Item
from .api import ASAN
from . import load

# ---- C26 --------------------------------------------------------------------

OPS = ['inc', 'inc', 'inc', 'dec', 'dec', 'incp', 'decp', 'copy', 'swap', 'new']
EDGES = [0, 1, 0x41, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]


def utf8(cs):
    return ''.join(map(chr, cs)).encode('utf-8', 'surrogatepass')


def walk_item(cs, ops, **kw):
    def rec(rs):
        return [{'k': 'walk', 'cs': cs, 'st': rs[0]['st']}]
    return Item([{'op': 'u8walk', 'textx': utf8(cs).hex(), 'ops': ops}], rec, **kw)


def enc_item(frm, n, **kw):
    def rec(rs):
        return [{'k': 'enc', 'from': frm, 'bs': rs[0]['bs']}]
    return Item([{'op': 'u8enc', 'from': frm, 'count': n}], rec, **kw)


def bare_item(t, **kw):
    def rec(rs):
        return [{'k': 'bare', 't': list(t), 'r': list(rs[0]['res'])}]
    return Item([{'op': 'unaccent', 'text': t}], rec, info=t, **kw)


ACC = 'àâäçéèêëîïôöûüÿñÀÂÄÇÉÈÊËÎÏÔÖÛÜŸÑßøØåÅæÆœŒłŁđĐıİşŞğĞčšžřůąęćńśźżőűăâîșțāēīūģķļņёйЁЙЇїўάέήίόύώΐΰäộ각한ḍ̇ẛが漢字عَربيहिन्दीกำ'
MARKS = '\u0300\u0301\u0302\u0303\u0308\u030a\u0323\u0327\u0328\u0345\u0338\u20dd\u0903\u093f\u3099\u1161\u11a8'


def bare_text(rng):
    s = ''
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        k = rng.random()
        if k < 0.35: s += rng.choice('abcXYZ 1-')
        elif k < 0.8: s += rng.choice(ACC)
        else: s += rng.choice(MARKS)
    return s


def c26(ctx):
    exe = build.core(True)
    rng = ctx.rng
    pts = '{65, 233, 8364, 128512}'
    r = tlc.model('MCUtf8', consts={'Points': pts, 'MaxText': '3', 'MaxWalk': str(ctx.n(4, 6)), 'Emit': 'FALSE'}, timeout=800)
    ctx.model(r, 'MCUtf8(texts up to 3 of %s, %d steps)' % (pts, ctx.n(4, 6)))
    r = tlc.model('MCUtf8', consts={'Points': pts, 'MaxText': '2', 'MaxWalk': '4', 'Emit': 'TRUE'}, timeout=800)
    ctx.model(r, 'MCUtf8(texts up to 2, walks of 4 steps replayed)')
    items = [walk_item(c['cs'], c['ops']) for c in r.printed('CASE')]
    if not ctx.thorough: items = rng.sample(items, min(len(items), 4000))
    suite.run(ctx, exe, 'TraceUtf8', items, 'walks of the model', env=ASAN, chunk=256)
    items = []
    for _ in range(ctx.n(400, 8000)):
        pool = rng.choice([EDGES, EDGES, [65, 98, 32], [233, 0x416, 0x7ff], [0x20ac, 0x4e2d, 0xffff], [0x1f600, 0x10ffff], None])
        cs = [rng.choice(pool) if pool else rng.choice([rng.randint(1, 0xd7ff), rng.randint(0xe000, 0x10ffff)]) for _ in range(rng.choice([0, 1, 2, 3, 7, 20]))]
        ops = [rng.choice(OPS) for _ in range(rng.choice([3, 10, 30]))]
        if rng.random() < 0.3: ops = ['inc'] * len(cs) + ['copy'] + ['dec'] * len(cs)
        items.append(walk_item(cs, ops))
    # every block of code points walked over once (quick: some)
    step = 512
    blocks = list(range(1, 0x110000, step))
    for b in blocks if ctx.thorough else rng.sample(blocks, 40) + [1, 0x401, 0x601, 0xd601, 0xe001, 0xfe01, 0x10ffff - 510]:
        cs = [c for c in range(b, min(b + step, 0x110000)) if not 0xd800 <= c < 0xe000]
        for k in range(0, len(cs), 128): items.append(walk_item(cs[k:k + 128], ['inc'] * (len(cs[k:k + 128]) - 1) + ['swap', 'incp', 'dec']))
    items += [enc_item(b, 256) for b in (range(0, 0x110400, 256) if ctx.thorough else list(range(0, 0x1200, 256)) + [0xd700, 0xd800, 0xdf00, 0xe000, 0xff00, 0x10000, 0x10ff00, 0x110000, 0x1fff00, 0x200000, 0x7fffff00 - 1] + [256 * rng.randint(0, 0x10ff) for _ in range(60)])]
    suite.run(ctx, exe, 'TraceUtf8', items, 'random walks and the bytes of code points', env=ASAN, chunk=64)
    its = [bare_item(c) for c in ACC + MARKS + 'abc 12.'] + [bare_item(bare_text(rng)) for _ in range(ctx.n(800, 15000))]
    its += [bare_item(gen.text(rng)) for _ in range(ctx.n(100, 1000))] if hasattr(gen, 'text') else []
    suite.run(ctx, exe, 'TraceUtf8', its, 'accents removed', env=ASAN, chunk=128)
    ctx.notes.append('two iterators over texts of 1 to 4 byte characters; the bytes of %s code points and of numbers beyond them; accents removed' % ('all' if ctx.thorough else 'some 25 000'))


# ---- C27 --------------------------------------------------------------------

def op(f, s='', c=(), n=0):
    return {'f': f, 's': s, 'c': list(c), 'n': n}


BASE = [op('copy'), op('swap')]
SMALL = {
    'token': BASE + [op('text', '  a\t'), op('text', ' '), op('trim', n=0), op('trim', n=1), op('trim', n=2), op('cls+', c=['WORD']), op('cls=', c=['NUMBER', 'TYPE']), op('read', 'TOKEN:\tA\tB\tWORD,NOPE\tSTREET\tATT_PRE\t1'), op('lex', n=1)],
    'rule': BASE + [op('new'), op('clear'), op('plus', n=0), op('plus', n=1), op('read', 'WORD TYPE -> STREET SUFTYP -> 0.5'), op('read', 'NUMBER -> HOUSE -> 1.5'), op('read', 'WORD -> -> 1'), op('read', '-> -> 2')],
    'entry': BASE + [op('new'), op('set', 'x', c=['WORD']), op('type+', c=['TYPE']), op('type=', c=['NUMBER', 'WORD']), op('att=', c=['ATT_PRE', 'DET_SUF']), op('att=', c=['DET_SUF']), op('read', 'A\tB\tWORD\tATT_SUF'), op('std', 'y')],
    'meta': BASE + [op('new'), op('read', '@a @b'), op('read', 'x@@c_1 @'), op('push', 'd'), op('refs'), op('read', '')],
    'rsec': BASE + [op('new'), op('name', 'S'), op('push', 'WORD -> STREET -> 0.5'), op('push', 'TYPE -> NOPE -> 1'), op('push', 'TYPE -> -> 1'), op('rules')],
    'msec': BASE + [op('new'), op('name', 'S'), op('push', '@a @b'), op('push', 'junk'), op('rules')],
    'count': [op('count', 'vp a'), op('count', 'vp b'), op('clear', 'vp a'), op('clear', 'vp c'), op('count', '')],
}
MAXLEN = {'token': 4, 'rule': 4, 'entry': 4, 'meta': 4, 'rsec': 4, 'msec': 4, 'count': 5}
PROBE = gen.INN + ['BADTOKEN']
PATS = [[], ['WORD'], ['WORD', 'TYPE'], ['NUMBER', 'WORD', 'TYPE'], ['WORD', 'TYPE', 'NUMBER'], ['NUMBER'], ['BADTOKEN']]


def vals_item(kind, ops, names=None, asked=('WORD', 'TYPE'), pats=PATS, past=0, **kw):
    names = names if names is not None else ['vp a', 'vp b', 'vp c', ''] if kind == 'count' else PROBE
    cmd = {'op': 'vals', 'kind': kind, 'names': names, 'asked': list(asked), 'pats': pats, 'past': past,
           'ops': [dict(o, sx=o['s'].encode().hex()) for o in ops]}

    def rec(rs):
        st = rs[0]['st']
        if len(st) != len(ops): raise suite.Bad('incomplete reply')
        return [{'kind': kind, 'st': [dict(s, op=dict(o, s=list(o['s']))) for s, o in zip(st, ops)]}]
    return Item([cmd], rec, **kw)


BLK = [' ', '\t', '\n', '\r', '\f', '\v', 'a', 'B', 'é', '中', '\u00a0', '\u3000', '😀']


def rnd_text(rng):
    return ''.join(rng.choice(BLK) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))


def rnd_fields(rng, head):
    f = [rng.choice([head, '', 'A', ' x ', 'é']), rng.choice(['', 'A', 'main st', 'é']), rng.choice(['', 'B', 'STR']),
         ','.join(rng.choice(gen.INN + ['NOPE', '', ' WORD ']) for _ in range(rng.choice([0, 1, 2, 3]))), rng.choice(gen.OUT + ['', 'NOPE', ' STREET']),
         ','.join(rng.choice(gen.ATT + ['NOPE', '']) for _ in range(rng.choice([0, 1, 2]))), '1']
    if head == 'LEXENTRY:': f[4:5] = []
    return '\t'.join(f[rng.choice([0, 0, 0, 1]):rng.choice([1, 2, 3, 4, 5, 6, 7, 8])])


def rnd_rule(rng):
    while True:
        l = load.rule_line(rng, rng.random() < 0.8)
        p = l.rsplit('->', 1)
        if l.count('->') < 2: return l
        l = p[0] + '-> ' + rng.choice(['0.5', '1', '1.5', '2.5', '4', '0', '-1', 'x'])
        return l


def rnd_op(rng, kind):
    k = rng.random()
    some = lambda pool, ns=(0, 1, 2, 3): [rng.choice(pool) for _ in range(rng.choice(ns))]
    if kind == 'count': return op(rng.choice(['count', 'count', 'count', 'clear']), rng.choice(['vp a', 'vp b', 'vp c', '', 'é']))
    if k < 0.15: return op('copy', n=rng.randint(0, 1))
    if k < 0.25: return op('swap')
    if k < 0.28: return op('new')
    if kind == 'token':
        f = rng.choice(['text', 'text', 'std', 'cls+', 'cls=', 'att+', 'att=', 'out', 'lex', 'trim', 'trim', 'trim', 'read'])
        return op(f, rnd_text(rng) if f in ('text', 'std') else rnd_fields(rng, 'TOKEN:') if f == 'read' else '',
                  some(gen.INN) if f in ('cls+', 'cls=') else some(gen.ATT) if f in ('att+', 'att=') else [rng.choice(gen.OUT)] if f == 'out' else [],
                  rng.choice([0, 1, 2, 3]) if f == 'trim' else rng.randint(0, 1))
    if kind == 'rule':
        f = rng.choice(['read', 'read', 'read', 'plus', 'clear'])
        return op(f, rnd_rule(rng) if f == 'read' else '', n=rng.randint(0, 1))
    if kind == 'entry':
        f = rng.choice(['set', 'word', 'std', 'type+', 'type=', 'att=', 'att=', 'read'])
        return op(f, rnd_fields(rng, 'LEXENTRY:') if f == 'read' else rnd_text(rng), some(gen.ATT) if f == 'att=' else some(gen.INN, (1, 2, 3)) if f != 'type=' else some(gen.INN))
    if kind == 'meta':
        f = rng.choice(['read', 'read', 'push', 'refs'])
        return op(f, rng.choice(['@a', '@a @b', '@a@b', 'junk', '@', '@@x', '@a-b @c', ' @é_1\t@Ж', '@a,@b # @c', '@1', 'a@b c@d']) if f == 'read' else load.name(rng))
    f = rng.choice(['name', 'push', 'push', 'push', 'rules'])
    return op(f, load.name(rng) if f == 'name' else '' if f == 'rules' else rnd_rule(rng) if kind == 'rsec' else rng.choice(['@a', '@a @b', 'junk', '@x@y', '@é']))


def sound(kind, ops):
    """within what the specification can print: few sums"""
    return kind != 'rule' or sum(o['f'] == 'plus' for o in ops) <= 3


def c27(ctx):
    exe = build.core(True)
    rng = ctx.rng
    for kind, ops in SMALL.items():
        n = MAXLEN[kind] + (1 if ctx.thorough else 0) - (0 if kind in ('count',) else 0)
        r = tlc.model('MCValues', consts={'Which': tlc.tla(kind), 'Ops': tlc.tla([dict(o, s=list(o['s'])) for o in ops]), 'MaxLen': str(min(n, 4) if kind != 'count' else n), 'Emit': 'TRUE'}, timeout=800)
        ctx.model(r, 'MCValues(%s, histories of %d calls)' % (kind, min(n, 4) if kind != 'count' else n))
        hs = r.printed('CASE')
        hs = rng.sample(hs, min(len(hs), ctx.n(500, 20000)))
        items = [vals_item(kind, [ops[i - 1] for i in h]) for h in hs]
        for _ in range(ctx.n(250, 4000)):
            o = [rnd_op(rng, kind) for _ in range(rng.choice([3, 6, 12]))]
            if not sound(kind, o): continue
            items.append(vals_item(kind, o, asked=[rng.choice(PROBE) for _ in range(rng.randint(0, 3))],
                                   pats=[[rng.choice(gen.INN[:5]) for _ in range(rng.randint(0, 4))] for _ in range(4)] + PATS[:3], past=rng.choice([0, 0, 1, 1000])))
        suite.run(ctx, exe, 'TraceValues', items, 'histories: ' + kind, env=ASAN, chunk=64)
    ctx.notes.append('histories of calls on two objects of each kind: tokens, rules, meta rules, entries, both kinds of sections, counters; after every call both show what the specification says')

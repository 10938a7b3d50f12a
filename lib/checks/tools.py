"""C28: the command-line tools."""
import os, re
import build, drv, tlc, gen, suite
from suite import Item, Bad
from . import load, pipeline
from .token import splittable

DRV = os.path.join(build.HARN, 'drv_tools.py')
NOISE = re.compile(r'^(Timer: [^\n]*|t\.tellg\(\) = [^\n]*|Stats: [^\n]*|Load from serialized failed![^\n]*|(Lexicon|Grammar) md5: [^\n]*|Lexicon regex[A-Za-z]*: [^\n]*\n)\n', re.M)
BAR = '-' * 53 + '\n'
ROW = re.compile(r'^(.*), ([-+.e0-9]+), ([0-9.]+)$')
hexs = lambda t: t.encode().hex()


def isum(mean, n):
    s = mean * n * gen.UNIT
    if abs(s - round(s)) > 0.3: raise Bad('a score that is no sum: %r' % mean)
    return int(round(s))


def t2_parts(r):
    """what t2 printed, without what depends on the time"""
    o = NOISE.sub('', r['out'])
    k = o.find('\nbestCost: ')
    if k < 0: return {'a': o, 's': -1, 'b': '', 'rows': [], 'rc': r['rc']}
    a, rest = o[:k + 1], o[k + 1:]
    first, rest = rest.split('\n', 1)
    if BAR not in rest: raise Bad('no rows')
    b, rows = rest.rsplit(BAR, 1)
    m = re.search(r', (\d+)\n$', b)
    if not m: raise Bad('no count of rules')
    n = int(m.group(1))
    out = []
    for l in rows.split('\n')[:-1]:
        x = ROW.match(l)
        if not x: raise Bad('a row that is none: ' + l)
        if float(x.group(3)) == -1: continue
        out.append({'t': x.group(1), 's': isum(float(x.group(2)), int(x.group(3))), 'n': int(x.group(3))})
    return {'a': a, 's': isum(float(first.split(': ')[1]), n), 'b': b, 'rows': out, 'rc': r['rc']}


class World:
    """lexicons and grammars of one case"""
    def __init__(self, lexs, gs):
        self.lexs, self.gs = lexs, gs          # [(entries, text)], [(sections, text)]

    def text(self, k, n):
        return 'junk\n' if k == 'junk' else self.lexs[n - 1][1] if k == 'lex' else self.gs[n - 1][1]


def lines(t):
    ls = t.split('\n')
    if ls and ls[-1] == '': ls.pop()
    return [list(l) for l in ls]


def runs_item(T, w, ops, **kw):
    steps = []
    for o in ops:
        k = o['op']
        if k == 'put': steps.append({'put': {o['f']: hexs(w.text(o['k'], o['n']))}})
        elif k == 'compile': steps.append({'bin': T['compile-lexicon'], 'args': [o['a'], o['b']]})
        elif k == 't2': steps.append({'bin': T['t2'], 'args': [o['l'], o['g'], o['t']] + ([] if o['f'] == ['default'] else [','.join(o['f'])])})
        elif k in ('t4', 't5'): steps.append({'bin': T[k], 'args': [o['l'], o['t']]})
        elif k == 'dump': steps.append({'bin': T['read-dump-grammar'], 'args': [o['g']]})
        elif k == 'usage': steps.append({'bin': T[o['t']], 'args': o['args']})

    def rec(rs):
        st = []
        if len(rs[0]['runs']) != len(ops): raise Bad('incomplete reply')
        for o, r in zip(ops, rs[0]['runs']):
            k = o['op']
            if k == 'put': st.append({'op': k, 'f': o['f'], 'c': {'k': o['k'], 'n': o['n']}})
            elif k == 'compile': st.append(dict(o, rc=r['rc']))
            elif k == 't2': st.append(dict(o, t=list(o['t']), **t2_parts(r)))
            elif k in ('t4', 't5'): st.append(dict(o, t=list(o['t']), rc=r['rc'], out=NOISE.sub('', r['out'])))
            elif k == 'dump': st.append(dict(o, rc=r['rc'], out=r['out']))
            elif k == 'usage': st.append({'op': k, 'rc': r['rc'], 'told': 'Usage' in r['err']})
        return [{'k': 'runs', 'lexs': [{'x': e, 'ls': lines(t)} for e, t in w.lexs], 'gs': [{'g': g, 'ls': lines(t)} for g, t in w.gs], 'st': st}]
    return Item([{'op': 'tools', 'steps': steps}], rec, info=[o for o in ops if o['op'] != 'put'][:6], **kw)


def put(f, k, n): return {'op': 'put', 'f': f, 'k': k, 'n': n}
def t2(l, g, t, f=('default',)): return {'op': 't2', 'l': l, 'g': g, 't': t, 'f': list(f)}


def script(name, args, put, rec, **kw):
    return Item([{'op': 'tools', 'steps': [{'bin': '/usr/bin/perl', 'args': [os.path.join(build.REPO, 'tools', name)] + args, 'put': {n: hexs(t) for n, t in put.items()}, 'read': ['out.sql']}]}],
                lambda rs: [rec(rs[0]['runs'][0])], **kw)


KEYS = ['ST', 'ST.', 'N', 'NORTH', 'MAIN ST', "O'NEIL", 'A+B', '(X)', 'É', 'C*', 'key', '1ST', 'B[', '中', 'Z\\']


def cmp_item(rng):
    def one(head):
        ls = [] if rng.random() < 0.06 else [head]
        ls = [rng.choice(['', '# c', '  ', ' # d'])] * (rng.random() < 0.3) + ls
        for _ in range(rng.choice([0, 1, 3, 6])):
            k = rng.choice(KEYS)
            ls.append(rng.choice(['LEXENTRY:\t', 'LEXENTRY:\t', 'LEXENTRY:\t', '']) + k + '\t' + rng.choice(['S', k, '']) + '\tWORD' + rng.choice(['', '\t', '\tATT_SUF']))
            if rng.random() < 0.15: ls.append(rng.choice(['', '#x', '\t']))
        return ls
    a, b = one('LEXICON:\ta\tENG\ten\t1'), one('LEXICON:\tb\tENG\ten\t1')
    return script('compare-lexicon', ['a', 'b'], {'a': '\n'.join(a) + '\n', 'b': '\n'.join(b) + rng.choice(['\n', '\n', ''] if b else ['']) },
                  lambda r: {'k': 'cmp', 'a': [list(l) for l in a], 'b': [list(l) for l in b], 'rc': r['rc'], 'out': r['out'].split('\n')[:-1]}, info=[a, b])


def rules_item(rng):
    rs, ls = [], []
    for _ in range(rng.choice([0, 1, 4, 9])):
        n = rng.choice([1, 1, 2, 3, 5])
        r = {'in': [rng.randrange(34) for _ in range(n)], 'out': [rng.randrange(18) for _ in range(n if rng.random() < 0.9 else n + 1)], 'kind': rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), 'score': rng.choice([0, 1, 2, 3, 5, 7, 8, 11, 16, 17, 20, 23])}
        rs.append(r); ls.append(' '.join(map(str, r['in'] + [-1] + r['out'] + [-1, r['kind'], r['score']])))
        if rng.random() < 0.2: ls.append(rng.choice(['', '-1', '# x', 'a b', ' 1 2']))
    if rng.random() < 0.5: ls.append('-1')
    k = rng.randrange(len(ls) + 1)
    two = rng.random() < 0.3
    fs = {'a': '\n'.join(ls[:k]) + '\n', 'b': '\n'.join(ls[k:]) + '\n'} if two else {'a': '\n'.join(ls) + '\n'}
    return script('convert-pagc-rules', sorted(fs), fs, lambda r: {'k': 'rules', 'rs': rs, 'rc': r['rc'], 'out': r['out']}, info=ls)


def words_item(rng):
    es, ls = [], []
    for _ in range(rng.choice([0, 1, 4, 9])):
        e = {'w': list(rng.choice(KEYS[:rng.choice([3, 15])])), 'k': rng.randrange(34), 's': list(rng.choice(KEYS[:rng.choice([2, 15])]))}
        es.append(e); ls.append('%d\t%s\t%d\t%s' % (rng.randint(1, 9), ''.join(e['w']), e['k'], ''.join(e['s'])))
        if rng.random() < 0.2: ls.append(rng.choice(['', 'x', '1\tA\t2', '1\tA\t2\tB\t3', '\t\t\t']))
    return script('convert-pagc-lex-gaz', ['a'], {'a': '\n'.join(ls) + '\n'}, lambda r: {'k': 'words', 'es': es, 'rc': r['rc'], 'out': r['out']}, info=ls)


def load_item(rng):
    ps, fs = [], {'d/readme.txt': 'x', 'd/other.gmr': 'y'}
    for n in rng.sample(['usa', 'canada', 'el-salvador', 'x1'], rng.choice([1, 1, 2, 3])):
        lex = gen.rnd_lexicon(rng, rng.choice([1, 3]))
        loc = rng.choice(['en', 'en_US', 'fr_CA', 'de', 'EN_gb', 'es_SV', 'C'])
        lt = gen.lex_text(lex, loc)
        gt = rng.choice(["[ADDRESS]\n@r\n[r]\nWORD -> STREET -> 0.5\n", "# don't\n[ADDRESS]\n", "''\n", '\\ "x" $1 @a\n', ''])
        if rng.random() < 0.3: lt = lt.replace('\n', "\n# it's\n", 1)
        sub = rng.choice(['', 'deep/'])
        fs['d/%s%s.lex' % (sub, n)] = lt; fs['d/%s%s.gmr' % (sub, n)] = gt
        ps.append({'name': n, 'ls': lines(lt), 'lex': list(lt), 'gmr': list(gt)})
    create = rng.random() < 0.5
    if rng.random() < 0.2: fs['d/lone.lex'] = 'LEXICON:\tx\tENG\ten\t0\n'       # without a grammar: left out

    def rec(r):
        o = (r.get('files') or {}).get('out.sql')
        if o is None: raise Bad('no file written')
        mark = 'insert into as_config '
        k = o.find('update as_config set clexicon')
        if k < 0: raise Bad('no end')
        parts = o[:k].split(mark)
        return {'k': 'load', 'ps': ps, 'create': create, 'set': 'sample', 'rc': r['rc'], 'head': parts[0], 'ins': [mark + p for p in parts[1:]], 'tail': o[k:]}
    return script('load-lex-gmr-files', ['-c'] * create + ['sample', 'd', 'out.sql'], fs, rec, info=sorted(fs))


FILTERS = [('default',), ('default',), ('default',), (), ('SPACE',), ('PUNCT', 'SPACE'), ('SPACE', 'DASH', 'PUNCT')]


def c28(ctx):
    T = build.tools()
    rng = ctx.rng
    r = tlc.model('MCTools', consts={'MaxLen': str(ctx.n(3, 4)), 'Emit': 'TRUE'}, timeout=800)
    ctx.model(r, 'MCTools(histories of %d steps)' % ctx.n(3, 4))
    LA = [{'w': list('ST'), 's': 'STREET', 't': ['TYPE'], 'a': []}, {'w': list('N'), 's': 'NORTH', 't': ['DIRECT'], 'a': []}]
    LB = [{'w': list('ST'), 's': 'SAINT', 't': ['QUALIF', 'TYPE'], 'a': []}, {'w': list('STR'), 's': 'STRASSE', 't': ['TYPE'], 'a': ['DET_SUF']}]
    GA = {'ADDRESS': {'m': [['r'], ['n', 'r']]}, 'r': {'r': [{'in': ['WORD', 'TYPE'], 'out': ['STREET', 'SUFTYP'], 's': 2048}]}, 'n': {'r': [{'in': ['NUMBER'], 'out': ['HOUSE'], 's': 1024}]}}
    GB = {'ADDRESS': {'m': [['r']]}, 'r': {'r': [{'in': ['NUMBER', 'WORD', 'QUALIF'], 'out': ['HOUSE', 'STREET', 'QUALIF'], 's': 3072}, {'in': ['NUMBER', 'WORD', 'TYPE'], 'out': ['HOUSE', 'STREET', 'SUFTYP'], 's': 1024}]},
          'odd': {'r': [{'in': ['WORD'], 'out': ['CITY'], 's': 512}]}}
    w = World([(LA, gen.lex_text(LA)), (LB, gen.lex_text(LB))], [(GA, gen.gmr_text(GA)), (GB, gen.gmr_text(GB))])
    hs = r.printed('CASE')
    hs = rng.sample(hs, min(len(hs), ctx.n(120, 3000)))
    items = []
    for h in hs:
        ops = []
        for o in h:
            ops.append({'op': 'put', 'f': o['f'], 'k': o['k'], 'n': o['n']} if o['op'] == 'put' else {'op': 'compile', 'a': o['a'], 'b': o['b']})
        ops += [t2('a', 'g', '12 main st'), t2('c', 'g', '12 Mainstr', ('SPACE',)), {'op': rng.choice(['t4', 't5']), 'l': rng.choice('ac'), 't': '1 N st.'}, {'op': 'dump', 'g': 'g'}]
        items.append(runs_item(T, w, ops))
    for t in ('t2', 't4', 't5', 'compile-lexicon', 'read-dump-grammar'):
        items.append(runs_item(T, w, [{'op': 'usage', 't': t, 'args': []}] + ([{'op': 'usage', 't': t, 'args': ['a']}] if t != 'read-dump-grammar' else [])))
    suite.run(ctx, DRV, 'TraceTools', items, 'histories of files', chunk=8)
    items = []
    for l, t, f, ps in pipeline.texts(ctx, ctx.n(160, 2500), True):
        g = gen.grammar_for(rng, ps, gen.OUT, recursive=max(len(p) for p in ps) <= 4)
        if any(gen.count_derivs(g, p, cap=30) > 30 for p in ps) or t.startswith('-') or NOISE.search(t + '\n'): continue
        plain = rng.random() < 0.4         # scores that print in full
        if plain:
            for sec in g.values():
                for x in sec.get('r', []): x['s'] = max(1, x['s'] // 256) * 256
        w = World([(l, gen.lex_text(l))], [(g, gen.gmr_text(g))])
        ff = f if rng.random() < 0.6 else rng.choice(FILTERS)
        ops = [put('l', 'lex', 1), put('g', 'gmr', 1), {'op': 'compile', 'a': 'l', 'b': 'z'}, t2('l', 'g', t, ff), t2('z', 'g', t, f)]
        ops += [{'op': rng.choice(['t4', 't5']), 'l': 'l', 't': t}] * (rng.random() < 0.5) + [{'op': 'dump', 'g': 'g'}] * plain
        items.append(runs_item(T, w, ops))
    suite.run(ctx, DRV, 'TraceTools', items, 'addresses with lexicons and grammars', chunk=8)
    items = []
    for _ in range(ctx.n(150, 2500)): items.append(cmp_item(rng))
    for _ in range(ctx.n(80, 1000)): items.append(rules_item(rng))
    for _ in range(ctx.n(80, 1000)): items.append(words_item(rng))
    for _ in range(ctx.n(40, 500)): items.append(load_item(rng))
    suite.run(ctx, DRV, 'TraceTools', items, 'scripts', chunk=8)
    ctx.notes.append('runs of t2, t4, t5, compile-lexicon, read-dump-grammar and of the scripts in scratch directories; what they print is compared as a whole, without times, counters, digests and expressions')

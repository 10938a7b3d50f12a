"""C01, C02, C19: the grammar search."""
import json
import build, tlc, gen, suite
from suite import Item, Bad

SAMPLE = '/repo/data/sample'


def fam(rng, n):
    """n index tuples of the model's grammar family."""
    full = [(a, b, c, d) for a in (1, 2, 3) for b in range(1, 8) for c in range(1, 6) for d in range(1, 6)]
    return '{' + ','.join('<<%d,%d,%d,%d>>' % t for t in sorted(rng.sample(full, n))) + '}'


def model(ctx, nfam, maxlen, emit=True):
    r = tlc.model('MCSearch', consts={'MaxLen': str(maxlen), 'Family': fam(ctx.rng, nfam), 'Emit': 'TRUE' if emit else 'FALSE'}, timeout=800)
    ctx.model(r, 'MCSearch(%d grammars, phrases <= %d)' % (nfam, maxlen))
    return r.printed('CASE')


def toks(phrase, texts=None):
    return [[texts[i] if texts else 'T%d' % i, list(c)] for i, c in enumerate(phrase)]


def paths(ps):
    out = []
    for p in ps:
        one = []
        for r in p:
            s = r['score'] * gen.UNIT
            one.append({'in': r['in'], 'out': r['out'], 's': int(round(s)) if abs(s - round(s)) < 1e-3 else -999})
        out.append(one)
    return out


def isum(score, n):
    """mean score reported for n rules -> sum in 1/4096"""
    if score == -1 and n == -1: return -1
    if n <= 0: return -998
    s = score * n * gen.UNIT
    return int(round(s)) if abs(s - round(s)) < 0.05 else -999


def path_item(g, phrase, root='ADDRESS', shown=None, **kw):
    """shown: what the specification is shown in place of g"""
    cmd = {'op': 'search', 'gmr': gen.gmr_text(g), 'toks': toks(phrase)}
    if root != 'ADDRESS': cmd['node'] = root

    def rec(rs):
        if 'exc' in rs[0]: raise Bad('exception ' + rs[0]['exc'])
        return [{'k': 'paths', 'g': shown or g, 'root': root, 'p': phrase, 'paths': paths(rs[0]['paths'])}]
    return Item([cmd], rec, **kw)


def best_item(g, phrases, shown=None, **kw):
    ts = [['%s%d' % ('TXYZ'[k % 4], i) for i in range(len(p))] for k, p in enumerate(phrases)]
    cmd = {'op': 'search', 'gmr': gen.gmr_text(g), 'toks': toks(phrases[0], ts[0]), 'best': True,
           'more': [toks(p, t) for p, t in zip(phrases[1:], ts[1:])]}

    def rec(rs):
        if 'exc' in rs[0]: raise Bad('exception ' + rs[0]['exc'])
        b, al = rs[0]['best'], rs[0]['all']
        n = int(b['nrules'])
        return [{'k': 'best', 'g': shown or g, 'ps': phrases, 'ts': ts, 'toks': b['toks'], 's': isum(b['score'], n), 'n': n, 'pat': b['matched']},
                {'k': 'rows', 'g': shown or g, 'ps': phrases, 'sorted': False,
                 'rows': [{'t': x['tokens'], 's': isum(x['score'], x['nrules']), 'n': int(x['nrules'])} for x in al]}]
    return Item([cmd], rec, **kw)


CL = ['NUMBER', 'WORD', 'TYPE', 'DIRECT', 'SINGLE', 'UNITH', 'CITY', 'PROV', 'QUINT', 'MIXED']


def rnd_cases(rng, n, maxlen, cap, recursive=True, big=False):
    """random (grammar, phrase) pairs whose number of derivations stays small"""
    out = []
    while len(out) < n:
        classes = rng.sample(CL, rng.choice([2, 2, 3, 4]))
        if big:
            g = gen.big_grammar(rng)
            classes = sorted(set(c for s in g.values() for r in s.get('r', []) for c in r['in'])) or ['WORD']
        else: g = gen.rnd_grammar(rng, classes, nmeta=rng.choice([1, 2, 3, 5]), nrule=rng.choice([2, 3, 5]), recursive=recursive, maxlen=rng.choice([3, 3, 3, 5]), names=rng.random() < 0.2)
        if any(x not in g for s in g.values() for a in s.get('m', []) for x in a):
            continue
        for _ in range(4):
            if rng.random() < 0.7:
                m = gen.matching_phrase(rng, g, maxlen)
                if m is None: continue
                p = [gen.csort(set([c] + ([rng.choice(classes)] if rng.random() < (0.1 if big else 0.3) else []))) for c in m]
            else:
                p = gen.rnd_phrase(rng, classes, min(maxlen, 5))
            n2 = 1
            for t in p: n2 *= len(t)
            if n2 > 64: continue
            k = gen.count_derivs(g, p, cap=cap)
            if k <= cap and (k > 0 or rng.random() < 0.15):
                out.append((g, p))
    return out[:n]


def extra(rng, classes, c, p):
    """the class of a derivation, with others beside it now and then"""
    return gen.csort(set([c] + (rng.sample(classes, rng.choice([1, 1, 2])) if rng.random() < p else [])))


def wide(p):
    n = 1
    for t in p: n *= len(t)
    return n


def sample_cases(rng, n, maxlen=14, cap=40):
    """the sample grammars, with phrases of their own"""
    gs, out = gen.sample_grammars(build.REPO), []
    while len(out) < n and gs:
        g = rng.choice(gs)
        m = gen.matching_phrase(rng, g, maxlen)
        if m is None: continue
        classes = sorted(set(c for s in g.values() for r in s.get('r', []) for c in r['in']))
        if rng.random() < 0.1 and m: m[rng.randrange(len(m))] = rng.choice(classes)
        p = [extra(rng, classes, c, 0.3) for c in m]
        if wide(p) <= 64 and gen.count_derivs(g, p, cap=cap) <= cap: out.append((g, p))
    return out


def fitting(g, phrases):
    """the grammar without the rules that fit nowhere in the phrases: it has the same derivations of them"""
    def fits(r):
        k = len(r['in'])
        return any(all(r['in'][j] in p[o + j] for j in range(k)) for p in phrases for o in range(len(p) - k + 1))
    return {n: ({'m': s['m']} if 'm' in s else {'r': [r for r in s['r'] if fits(r)]}) for n, s in g.items()}


def deep_cases(rng, n):
    """chains of metas around the expansion limit: derivable exactly when the chain is short enough"""
    out = []
    for _ in range(n):
        L = rng.randint(0, 4)
        depth = L + 2 + rng.choice([-1, 0, 0, 1, 1, 2])
        names = ['ADDRESS'] + ['m%d' % i for i in range(1, max(1, depth))]
        g = {}
        for a, b in zip(names, names[1:]): g[a] = {'m': [[b]]}
        body = ['r'] * L
        if rng.random() < 0.4 and L > 0:
            g[names[-1]] = {'m': [['rr'], body]}
            g['rr'] = {'r': [{'in': ['WORD'] * L, 'out': ['STREET'] * L, 's': 1024}]}
        else:
            g[names[-1]] = {'m': [body or ['e']]}
        g['r'] = {'r': [{'in': ['WORD'], 'out': ['STREET'], 's': 2048}]}
        g['e'] = {'r': [{'in': [], 'out': [], 's': 2048}]}
        out.append((g, [['WORD']] * L))
    return out


def series_item(g, phrases, kind='paths', **kw):
    """one Search asked several phrases one after the other"""
    cmds = [{'op': 'gnew', 'id': 'G', 'gmr': gen.gmr_text(g)}]
    cmds += [dict({'op': 'search', 'id': 'G', 'toks': toks(p)}, **({'node': n} if n != 'ADDRESS' else {})) for n, p in phrases]

    def rec(rs):
        for r in rs:
            if 'exc' in r: raise Bad('exception ' + r['exc'])
        if kind == 'bound': return [{'k': 'bound', 'g': g, 'p': p, 'paths': paths(r['paths'])} for (n, p), r in zip(phrases, rs[1:])]
        return [{'k': 'paths', 'g': g, 'root': n, 'p': p, 'paths': paths(r['paths'])} for (n, p), r in zip(phrases, rs[1:])]
    return Item(cmds, rec, **kw)


def series_cases(rng, n, roots=True):
    """grammars where the bound on expansions bites, each with phrases of different lengths"""
    out = []
    while len(out) < n:
        k = rng.random()
        if k < 0.35:
            # a chain as long as the longest of the phrases allows
            L = rng.randint(2, 6)
            names = ['ADDRESS'] + ['m%d' % i for i in range(1, L + rng.choice([0, 1, 2]))]
            g = {a: {'m': [[b]]} for a, b in zip(names, names[1:])}
            g[names[-1]] = {'m': [['r'] * j for j in range(1, L + 1)]}
            g['r'] = {'r': [gen.rnd_rule(rng, ['WORD'], ['STREET'], maxlen=1, eps=0), {'in': ['NUMBER'], 'out': ['HOUSE'], 's': 2048}]}
            g['r']['r'][0].update({'in': ['WORD'], 'out': ['STREET']})
            ps = [[[rng.choice(['WORD', 'WORD', 'NUMBER'])] for _ in range(j)] for j in range(0, L + 1)]
        elif k < 0.6:
            g, p = deep_recursive(rng)
            if len(p) > 8: continue
            ps = [p[:j] for j in range(len(p) + 1)]
        else:
            classes = [c for c, _ in ONES]
            g = recursive_grammar(rng, classes)
            ps = [[[c] for c in (gen.matching_phrase(rng, g, 5) or [rng.choice(classes)])] for _ in range(5)]
        rng.shuffle(ps)
        ps = ps[:rng.choice([2, 3, 4, 6])]
        if rng.random() < 0.5: ps.sort(key=len, reverse=True)
        ps.append(ps[0])
        ps = [(rng.choice(list(g)) if roots and rng.random() < 0.15 else 'ADDRESS', p) for p in ps]
        if all(gen.count_derivs(g, p, n, cap=60) <= 60 for n, p in ps): out.append((g, ps))
    return out


def large_cases(rng, thorough=False):
    """sizes far beyond the usual: every length, number and count somewhere in here passes any plausible fixed limit"""
    def R(i, o=None, s=None): return {'in': i, 'out': o or [rng.choice(gen.OUT[1:]) for _ in i], 's': s if s is not None else gen.score(rng, rng.choice([8, 16, 24, 32, 48, 64]))}
    def secs(n): return ['s%d' % i for i in range(n)]
    out = []
    k = 13 if thorough else rng.choice([10, 11])
    # many derivations of one combination of classes
    g = {'ADDRESS': {'m': [secs(k)]}}
    for s in secs(k): g[s] = {'r': [R(['WORD'], ['STREET']), R(['WORD'], ['CITY'])]}
    out.append(('2^%d derivations' % k, g, [['WORD']] * k))
    # many combinations of classes, one derivation each
    g = {'ADDRESS': {'m': [secs(k)]}}
    for s in secs(k): g[s] = {'r': [R(['NUMBER']), R(['WORD'])]}
    out.append(('2^%d combinations' % k, g, [['NUMBER', 'WORD']] * k))
    # many combinations, of which only some of the last match
    g = {'ADDRESS': {'m': [secs(k)]}}
    for i, s in enumerate(secs(k)): g[s] = {'r': [R(['WORD'])] + ([R(['NUMBER'])] if i > k - 3 else [])}
    out.append(('the last of 2^%d combinations' % k, g, [['NUMBER', 'WORD']] * k))
    # a token of very many classes
    cs = gen.csort(rng.sample(gen.INN, 30))
    g = {'ADDRESS': {'m': [['a'], ['a', 'a']]}, 'a': {'r': [R([c]) for c in cs]}}
    out.append(('a token of 30 classes', g, [cs]))
    out.append(('two tokens of 30 classes', g, [cs, cs[::3]]))
    # many rules in a section, many alternatives in a meta, many sections
    n = rng.choice([300, 600])
    rules = [R([rng.choice(CL) for _ in range(3)]) for _ in range(n)] + [R(['WORD', 'NUMBER', 'TYPE'])] * 2
    out.append(('%d rules' % n, {'ADDRESS': {'m': [['a']]}, 'a': {'r': rules}}, [[c] for c in rules[-1]['in']]))
    out.append(('%d rules' % n, {'ADDRESS': {'m': [['a']]}, 'a': {'r': rules}}, [[c] for c in rules[n // 2]['in']]))
    g = {'ADDRESS': {'m': [['b', s] for s in secs(n)]}, 'b': {'r': [R(['DIRECT'])]}}
    for i, s in enumerate(secs(n)): g[s] = {'r': [R([CL[i % len(CL)]])]}
    out.append(('%d alternatives' % n, g, [['DIRECT'], [CL[(n - 1) % len(CL)]]]))
    # a long rule, a long alternative, a long phrase
    for m in (30, rng.choice([64, 70, 130])):
        cls = [rng.choice(CL) for _ in range(m)]
        g = {'ADDRESS': {'m': [['a'], secs(m)]}, 'a': {'r': [R(cls), R(cls[:-1])]}}
        for s, c in zip(secs(m), cls): g[s] = {'r': [R([c])]}
        out.append(('%d tokens' % m, g, [[c] for c in cls]))
    # expansions: a round for every token, and a chain as long as the phrase allows
    m = rng.choice([40, 70])
    g = {'ADDRESS': {'m': [['w', 'ADDRESS'], ['w']]}, 'w': {'r': [R(['WORD']), R(['NUMBER'])]}}
    out.append(('%d rounds' % m, g, [[rng.choice(['WORD', 'NUMBER'])] for _ in range(m)]))
    for x in (m + 1, m + 2, m + 3):
        g = {'ADDRESS': {'m': [['c1']]}}
        for i in range(1, x): g['c%d' % i] = {'m': [['c%d' % (i + 1)]]}
        g['c%d' % x] = {'m': [['w'] * m]}
        g['w'] = {'r': [R(['WORD'])]}
        out.append(('a chain of %d' % x, g, [['WORD']] * m))
    # many empty rules in a derivation
    g = {'ADDRESS': {'m': [['e'] * 80 + ['w']]}, 'e': {'r': [R([], [])]}, 'w': {'r': [R(['WORD'])]}}
    out.append(('80 empty rules', g, [['WORD']]))
    return out


def large_best(rng, thorough=False):
    """the same for the choice: the best one stands late"""
    out = [(w, g, [p]) for w, g, p in large_cases(rng, thorough)]
    n = rng.choice([70, 130, 300])
    g = {'ADDRESS': {'m': [['a'], ['a', 'a']]}, 'a': {'r': [{'in': [c], 'out': ['STREET'], 's': 512 + 8 * i} for i, c in enumerate(CL)]}}
    ps = [[[rng.choice(CL[:-1])] for _ in range(rng.choice([1, 2]))] for _ in range(n)]
    out.append(('%d phrases' % n, g, ps + [[[CL[-1]]]]))
    out.append(('%d phrases' % n, g, ps))
    for w, g, p in large_cases(rng):
        if 'combinations' in w and 'last' not in w:
            # scores that make the last combination the best one
            g = json.loads(json.dumps(g))
            for s in g.values():
                for r in s.get('r', []): r['s'] = 1024 if r['in'] == ['NUMBER'] else 2048
            out.append((w, g, [p]))
        elif 'derivations' in w:
            g = json.loads(json.dumps(g))
            for s in g.values():
                for i, r in enumerate(s.get('r', [])): r['s'] = 1024 + 1024 * i
            out.append((w, g, [p]))
    return out


def c01(ctx):
    exe = build.core()
    cases = model(ctx, ctx.n(14, 300), 2)
    if ctx.thorough:
        cases += model(ctx, 60, 3)
    items = []
    for c in cases:
        g, p = c['g'], c['p']
        items.append(path_item(g, p))
    # the model's own answers, compared by the specification on the recorded replies
    suite.run(ctx, exe, 'TraceSearch', items, 'replay of the model')
    items = [path_item(g, p) for g, p in rnd_cases(ctx.rng, ctx.n(700, 9000), 6, 60)]
    items += [path_item(g, p) for g, p in rnd_cases(ctx.rng, ctx.n(120, 1500), 14, 40, big=True)]
    items += [path_item(g, p) for g, p in deep_cases(ctx.rng, ctx.n(60, 400))]
    # sections other than ADDRESS as the start
    for g, p in rnd_cases(ctx.rng, ctx.n(60, 600), 5, 40):
        root = ctx.rng.choice([x for x in g if x == 'ADDRESS' or 'r' in g[x] or True])
        if gen.count_derivs(g, p, root, cap=60) <= 60:
            items.append(path_item(g, p, root))
    suite.run(ctx, exe, 'TraceSearch', items, 'generated grammars')
    items = [path_item(g, p, shown=fitting(g, [p])) for g, p in sample_cases(ctx.rng, ctx.n(250, 4000))]
    suite.run(ctx, exe, 'TraceSearch', items, 'sample grammars')
    items = [series_item(g, ps) for g, ps in series_cases(ctx.rng, ctx.n(150, 1500))]
    suite.run(ctx, exe, 'TraceSearch', items, 'one search object, several phrases')
    items = [path_item(g, p, shown=fitting(g, [p]), info=w) for w, g, p in large_cases(ctx.rng, ctx.thorough)]
    suite.run(ctx, exe, 'TraceSearch', items, 'large grammars and phrases', limit=60, chunk=1)
    ctx.notes.append('each case is a grammar and a phrase; the recorded list of derivations has to equal the bag of derivations the specification derives (cases with no derivation are kept to 15%)')
    ctx.assumptions.append('rule scores are multiples of 1/4096 so that means are exact')


def c02(ctx):
    exe = build.core()
    cases = model(ctx, ctx.n(10, 200), 2)
    rng = ctx.rng
    items = [best_item(c['g'], [c['p']]) for c in cases]
    suite.run(ctx, exe, 'TraceSearch', items, 'replay of the model')
    items = []
    pool = rnd_cases(rng, ctx.n(600, 6000), 5, 40) + rnd_cases(rng, ctx.n(80, 1000), 12, 30, big=True)
    for g, p in pool:
        ps = [p]
        classes = sorted(set(c for s in g.values() for r in s.get('r', []) for c in r['in'])) or ['WORD']
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 3, 7])):
            m = gen.matching_phrase(rng, g, 5) if rng.random() < 0.7 else None
            q = [gen.csort(set([c] + ([rng.choice(classes)] if rng.random() < 0.3 else []))) for c in m] if m is not None else gen.rnd_phrase(rng, classes, 4)
            if gen.count_derivs(g, q, cap=40) <= 40: ps.append(q)
        if rng.random() < 0.3: rng.shuffle(ps)
        items.append(best_item(g, ps))
    suite.run(ctx, exe, 'TraceSearch', items, 'generated grammars, several phrases')
    items = []
    for g, p in sample_cases(rng, ctx.n(200, 3000), cap=25):
        ps = [p]
        for _ in range(rng.choice([0, 0, 1, 3])):
            q = [[c] if rng.random() < 0.8 else t for t in p for c in [rng.choice(t)]] if rng.random() < 0.5 else [[c] for c in gen.matching_phrase(rng, g, 12) or ['WORD']]
            ps.insert(rng.randint(0, len(ps)), q)
        if all(gen.count_derivs(g, q, cap=25) <= 25 for q in ps): items.append(best_item(g, ps, shown=fitting(g, ps)))
    suite.run(ctx, exe, 'TraceSearch', items, 'sample grammars')
    items = [best_item(g, ps, shown=fitting(g, ps), info=w) for w, g, ps in large_best(rng, ctx.thorough)]
    suite.run(ctx, exe, 'TraceSearch', items, 'large grammars and phrases', limit=60, chunk=1)
    from . import pipeline
    asp = ['choice', 'match']
    items = pipeline.cases(ctx, ctx.n(150, 2500), asp, True) + pipeline.long_cases(ctx, ctx.n(40, 800), asp, False) + pipeline.real_cases(ctx, ctx.n(50, 1000), asp, True)
    suite.run(ctx, exe, 'TracePipeline', items, 'through the C API')
    pipeline.run_large(ctx, asp, True)
    ctx.notes.append('each case is a grammar and 1-4 phrases; the chosen derivation, its score, and all rows are compared')


def bound_item(g, phrase, **kw):
    cmd = {'op': 'search', 'gmr': gen.gmr_text(g), 'toks': toks(phrase), 'best': True}

    def rec(rs):
        if 'exc' in rs[0]: raise Bad('exception ' + rs[0]['exc'])
        return [{'k': 'bound', 'g': g, 'p': phrase, 'paths': paths(rs[0]['paths'])},
                {'k': 'rowbound', 'g': g, 'ps': [phrase], 'rows': [{'t': x['tokens'], 's': isum(x['score'], x['nrules']), 'n': int(x['nrules'])} for x in rs[0]['all']]}]
    return Item([cmd], rec, **kw)


ONES = [('WORD', 'XYZ'), ('NUMBER', '12'), ('MIXED', 'X1Y'), ('CITY', 'QQQ')]
ONELEX = 'LEXICON:\tx\tENG\ten\t1\nLEXENTRY:\tQQQ\tQQQ\tCITY\t\n'


def api_item(g, phrase, **kw):
    """the same through the C API: an address whose tokens have these classes"""
    text = ' '.join(dict(ONES)[p[0]] for p in phrase)
    base = {'addr': text, 'gmr': gen.gmr_text(g), 'lex': ONELEX, 'filt': 'SPACE'}
    cmds = [dict(base, op='parse'), dict(base, op='match'), dict(base, op='std')]

    def rec(rs):
        for r in rs:
            if 'exc' in r: raise Bad('exception ' + r['exc'])
            if r['err'] is not None: raise Bad('refused: ' + r['err'])
        ps = []
        for x in rs[0]['rows']:
            while len(ps) <= x['pat']: ps.append([])
            ps[x['pat']].append(x['inclass'].split(','))
        return [{'k': 'rowbound', 'g': g, 'ps': ps or [[]], 'rows': [{'t': x['tokens'], 's': isum(x['score'], x['nrules']), 'n': int(x['nrules'])} for x in rs[1]['rows']]}]
    return Item(cmds, rec, **kw)


def recursive_grammar(rng, classes):
    """metas that refer to each other at random, most of them recursive"""
    k = rng.choice([1, 1, 2, 3])
    metas = ['ADDRESS'] + ['m%d' % i for i in range(k - 1)]
    rules = ['r%d' % i for i in range(rng.choice([1, 2, 3]))]
    g = {}
    for m in metas:
        alts = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            a = [rng.choice(rules) for _ in range(rng.choice([0, 1, 1, 2]))]
            for _ in range(rng.choice([0, 1, 1, 1, 2])): a.insert(rng.randint(0, len(a)), rng.choice(metas))
            alts.append(a or [rng.choice(metas)])
        if rng.random() < 0.6: alts.insert(rng.randint(0, len(alts)), [rng.choice(rules)])
        g[m] = {'m': alts}
    for r in rules:
        g[r] = {'r': [gen.rnd_rule(rng, classes, gen.OUT, maxlen=2, eps=0.15) for _ in range(rng.choice([1, 1, 2, 3]))]}
    return g


def work(g, n, phrase, cap):
    """size of the search, to keep generated cases small"""
    return gen.count_derivs(g, phrase, cap=cap)


def deep_recursive(rng):
    """long phrases on grammars with one derivation, whose number of expansions is set against the bound"""
    n = rng.choice([5, 8, 12, 16, 20])
    shape = rng.randint(0, 5)
    W, S = ['WORD'], [{'in': ['WORD'], 'out': ['STREET'], 's': 2048}]
    phrase = [['WORD']] * n
    if shape == 0: g = {'ADDRESS': {'m': [['w', 'ADDRESS'], ['w']]}, 'w': {'r': S}}
    elif shape == 1: g = {'ADDRESS': {'m': [['ADDRESS', 'w'], ['w']]}, 'w': {'r': S}}
    elif shape == 2: g = {'ADDRESS': {'m': [['w', 'X'], ['w']]}, 'X': {'m': [['w', 'ADDRESS'], ['w']]}, 'w': {'r': S}}
    elif shape == 3:      # an empty rule inside: one derivation for every number of rounds within the bound
        g = {'ADDRESS': {'m': [['e', 'ADDRESS'], ['t']]}, 'e': {'r': [{'in': [], 'out': [], 's': 512}]}, 't': {'r': [{'in': ['WORD'] * n, 'out': ['STREET'] * n, 's': 2048}]}}
    elif shape == 4:      # a round of unit sections
        g = {'ADDRESS': {'m': [['X'], ['t']]}, 'X': {'m': [['Y']]}, 'Y': {'m': [['ADDRESS'], ['t']]}, 't': {'r': [{'in': ['WORD'] * n, 'out': ['STREET'] * n, 's': 2048}]}}
    else:                 # two expansions for every token: beyond the bound for all but short phrases
        n = rng.randint(1, 6); phrase = [['WORD']] * n
        g = {'ADDRESS': {'m': [['X', 'ADDRESS'], ['X']]}, 'X': {'m': [['w']]}, 'w': {'r': S}}
    return g, phrase


def c19(ctx):
    exe = build.core()
    rng = ctx.rng
    maxlen = ctx.n(3, 5)
    r = tlc.model('MCRecursion', consts={'MaxLen': str(maxlen), 'Emit': 'TRUE'}, timeout=800, heap='10g')
    ctx.model(r, 'MCRecursion(13 shapes, 4 rule sets, phrases <= %d)' % maxlen)
    items = [bound_item(c['g'], c['p']) for c in r.printed('CASE')]
    suite.run(ctx, exe, 'TraceSearch', items, 'replay of the model')
    items = []
    while len(items) < ctx.n(500, 6000):
        classes = rng.sample([c for c, _ in ONES], rng.choice([1, 2, 2, 3]))
        g = recursive_grammar(rng, classes)
        if any(x not in g for s in g.values() for a in s.get('m', []) for x in a): continue
        n = rng.choice([0, 1, 2, 3, 4, 5, 6])
        p = gen.matching_phrase(rng, g, 6)
        p = [[c] for c in p] if p is not None and rng.random() < 0.7 else [[rng.choice(classes)] for _ in range(n)]
        if gen.count_derivs(g, p, cap=150) > 150: continue
        items.append(bound_item(g, p))
    suite.run(ctx, exe, 'TraceSearch', items, 'recursive grammars')
    items = [series_item(g, ps, 'bound') for g, ps in series_cases(rng, ctx.n(100, 1000), roots=False)]
    suite.run(ctx, exe, 'TraceSearch', items, 'one search object, several phrases')
    items = []
    for _ in range(ctx.n(40, 300)):
        g, p = deep_recursive(rng)
        items.append(bound_item(g, p))
    for _ in range(ctx.n(40, 300)):
        g, p = deep_recursive(rng)
        items.append(api_item(g, p) if len(p) <= 8 else bound_item(g, p))
    suite.run(ctx, exe, 'TraceSearch', items, 'long phrases')
    items = []
    while len(items) < ctx.n(150, 2000):
        classes = [c for c, _ in ONES]
        g = recursive_grammar(rng, classes)
        p = gen.matching_phrase(rng, g, 4)
        p = [[c] for c in p] if p and rng.random() < 0.7 else [[rng.choice(classes)] for _ in range(rng.choice([1, 2, 3]))]
        # a token of the tokenizer may have two classes (WORD and SINGLE and so on): these texts have one
        if gen.count_derivs(g, p, cap=100) > 100: continue
        items.append(api_item(g, p))
    suite.run(ctx, exe, 'TraceSearch', items, 'through the C API')
    ctx.notes.append('every search has to answer within its time limit and to report nothing beyond the bound; whether it reports everything within it is C01')
    ctx.assumptions.append('a search that has not answered after 20 s (80 s when repeated) does not end; the same searches take milliseconds')

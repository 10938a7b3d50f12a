"""C03, C04 and the row functions: from an address to the answer."""
import json, unicodedata
import build, drv, tlc, gen, suite
from suite import Item, Bad
from .search import isum, fitting
from .token import splittable, tj, used, samples, us_addresses

FIELDS = ['building', 'house_num', 'predir', 'qual', 'pretype', 'name', 'suftype', 'sufdir', 'ruralroute', 'extra', 'city', 'prov', 'country', 'postcode', 'box', 'unit']


def std_rec(r):
    if r.get('err'): raise Bad('error ' + r['err'])
    if r['res'] is None: return {'none': True, 'f': {}, 'pat': ''}
    return {'none': False, 'f': {k: v for k, v in r['res'].items() if v is not None and k != 'pattern'}, 'pat': r['res']['pattern'] or ''}


def parse_rec(r):
    if r.get('err'): raise Bad('error ' + r['err'])
    return [{'pat': x['pat'], 'seq': x['seq'], 'word': list(x['word']), 'inclass': x['inclass']} for x in r['rows']]


def match_rec(r):
    if r.get('err'): raise Bad('error ' + r['err'])
    return [{'t': x['tokens'], 's': isum(x['score'], x['nrules']), 'n': int(x['nrules'])} for x in r['rows']]


def all_item(lex, text, g, filt, asp, sep=',', shown=None, **kw):
    """shown: the (lexicon, grammar) the specification is shown instead: the parts that can matter for the text"""
    cmd = {'op': 'all', 'addr': text, 'gmr': gen.gmr_text(g), 'lex': gen.lex_text(lex), 'filt': sep.join(filt)}

    def rec(rs):
        r = rs[0]
        if 'exc' in r: raise Bad('exception ' + r['exc'])
        return [{'t': list(text), 'x': shown[0] if shown else lex, 'g': shown[1] if shown else g, 'f': list(filt), 'asp': asp, 'std': std_rec(r['std']), 'parse': parse_rec(r['parse']), 'match': match_rec(r['match'])}]
    return Item([cmd], rec, info=text, **kw)


def combos(p):
    n = 1
    for t in p: n *= len(t)
    return n


def texts(ctx, n, stdwords, lower=False):
    """(lexicon, text, filter, phrases found by the implementation - only to steer the grammar generator)"""
    rng = ctx.rng
    exe = build.core()
    cs = []
    while len(cs) < n:
        keys = [' '.join(rng.choice(gen.PARTS) for _ in range(2))] if rng.random() < 0.5 else []
        lex = gen.rnd_lexicon(rng, rng.choice([1, 3, 5, 8]), keys, rx=0.03)
        if not stdwords:
            for e in lex: e['s'] = rng.choice([''.join(e['w']), ''.join(e['w']), ''])
        else:
            # several entries of one key with different standard words in different classes
            for e in list(lex):
                if rng.random() < 0.5:
                    for _ in range(rng.choice([1, 2])):
                        f = gen.rnd_entry(rng, ''.join(e['w'])); lex.append(f)
            for k, e in enumerate(lex):
                if rng.random() < 0.85: e['s'] = rng.choice(['S%d' % k, 'Z %d' % k, 'É%d' % k])
            lex = [e for k, e in enumerate(lex) if e not in lex[:k]]
        t = gen.rnd_text(rng, lex, n=rng.choice([1, 2, 3, 3, 4]), lower=lower)
        if stdwords and lex and rng.random() < 0.7:
            t = rng.choice([' ', ', ', '-']).join(''.join(rng.choice(lex)['w']) for _ in range(rng.choice([1, 2, 3])))
        if '\0' in t or splittable(lex, gen.canon(t)) > 2: continue
        f = rng.choice([[], ['SPACE'], ['SPACE'], ['SPACE', 'PUNCT'], ['SPACE', 'PUNCT', 'DASH']])
        cs.append((lex, t, f))
    rs = drv.run_items(exe, [[{'op': 'parse', 'addr': t, 'lex': gen.lex_text(l), 'filt': ','.join(f)}] for l, t, f in cs])
    out = []
    for (l, t, f), r in zip(cs, rs):
        got = drv.rows(r[0]) if r else None
        if got is None: got = [{'pat': 0, 'inclass': 'WORD'}]        # a broken probe: the case itself shows it
        ps = [[]]
        for x in got:
            while len(ps) <= x['pat']: ps.append([])
            ps[x['pat']].append([c for c in x['inclass'].split(',') if c in gen.INNUM])
        if any(not all(p) or len(p) > 7 or combos(p) > 60 for p in ps): continue
        out.append((l, t, f, ps))
    return out


def cases(ctx, n, asp, stdwords, lower=False, outs=gen.OUT):
    rng = ctx.rng
    items = []
    for l, t, f, ps in texts(ctx, n, stdwords, lower):
        for _ in range(rng.choice([1, 2])):
            g = gen.grammar_for(rng, ps, outs, recursive=max(len(p) for p in ps) <= 4)
            if any(gen.count_derivs(g, p, cap=30) > 30 for p in ps): continue
            items.append(all_item(l, t, g, f, asp))
    return items


def long_cases(ctx, n, asp, stdwords, outs=gen.OUT):
    """addresses of many words"""
    rng = ctx.rng
    exe = build.core()
    cs = []
    while len(cs) < n:
        lex = gen.big_lexicon(rng, rng.choice([8, 15])) + gen.rnd_lexicon(rng, 3, rx=0)
        lex = [e for k, e in enumerate(lex) if gen.canon(''.join(e['w'])) == ''.join(e['w']) and ' ' not in e['w']]
        for k, e in enumerate(lex):
            if not stdwords: e['s'] = ''.join(e['w'])
            elif rng.random() < 0.8: e['s'] = rng.choice(['S%d' % k, 'Z %d' % k, 'É%d' % k])
            if rng.random() < 0.8: e['t'] = [rng.choice(gen.LEXCLS)]
            if rng.random() < 0.7: e['a'] = []
        lex = [e for k, e in enumerate(lex) if e not in lex[:k]]
        if not lex: continue
        t = ' '.join(rng.choice([''.join(rng.choice(lex)['w']), ''.join(rng.choice(lex)['w']), rng.choice(gen.WORDS + gen.NUMS + gen.MIX)]) for _ in range(rng.choice([6, 9, 12, 15])))
        if splittable(lex, gen.canon(t)) > 1: continue
        cs.append((lex, gen.canon(t), rng.choice([['SPACE'], ['SPACE'], ['SPACE', 'PUNCT'], []])))
    rs = drv.run_items(exe, [[{'op': 'parse', 'addr': t, 'lex': gen.lex_text(l), 'filt': ','.join(f)}] for l, t, f in cs])
    items = []
    for (l, t, f), r in zip(cs, rs):
        got = drv.rows(r[0]) if r else None
        if got is None: got = [{'pat': 0, 'inclass': 'WORD'}]        # a broken probe: the case itself shows it
        ps = [[]]
        for x in got:
            while len(ps) <= x['pat']: ps.append([])
            ps[x['pat']].append([c for c in x['inclass'].split(',') if c in gen.INNUM])
        if any(not all(p) or len(p) > 31 or combos(p) > 16 for p in ps): continue
        g = gen.grammar_for(rng, ps, rng.sample(outs, rng.choice([2, 5, len(outs)])), recursive=False)
        if any(gen.count_derivs(g, p, cap=30) > 30 for p in ps): continue
        items.append(all_item(l, t, g, f, asp))
    return items


def large_cases(rng, asp, stdwords):
    """long addresses, long words, long standard texts, many rows"""
    items = []
    L = lambda n, al='ABCDEFGHIJKLMNOPRSTUVW': ''.join(rng.choice(al) for _ in range(n))
    F = [o for o in gen.OUT if o not in ('STOP', 'IGNORE')]

    def one(ws, outs, cls=None, more=(), **kw):
        """words each with one class, one rule for all of them"""
        cls = cls or ['WORD'] * len(ws)
        seen, lex = set(), []
        for w, c in zip(ws, cls):
            if (w, c) in seen: continue
            seen.add((w, c)); lex.append({'w': list(w), 's': w if not stdwords else rng.choice(['S%d' % len(lex), L(rng.choice([1, 40, 300])), w + ' ' + w, 'É中' * rng.choice([1, 150])]), 't': [c], 'a': []})
        g = {'ADDRESS': {'m': [['r']]}, 'r': {'r': [{'in': list(cls), 'out': list(outs), 's': 2048}] + list(more)}}
        items.append(all_item(lex, ' '.join(ws), g, ['SPACE'], asp, **kw))
    # the whole address in one field, and spread over all of them
    for n in (20, 40, 70, 130, 200):
        ws = [L(rng.randint(3, 9)) for _ in range(n)]
        one(ws, [rng.choice(F)] * n)
        one(ws, [F[i % len(F)] for i in range(n)])
        k = rng.randint(1, n - 1); a, b = rng.sample(F, 2)
        one(ws, [a] * k + [b] * (n - k))
    # words (and so the texts of fields) of any length, in every field
    for n in (63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1025, 2050):
        o = rng.sample(F, 3)
        one([L(n), 'XAB', L(n // 2)], o); one(['ABC', L(n, 'ÉЖ中')], [o[0], o[0]])
    for o in F: one([L(rng.choice([260, 400])), 'ABC', L(rng.choice([1030, 70]))], [o, F[0], o])
    if stdwords:
        # the standard text is long, the word is not
        for n in (64, 128, 255, 256, 257, 513, 1025, 4100):
            o = rng.choice(F)
            lex = [{'w': list('ABC'), 's': L(n), 't': ['TYPE'], 'a': []}, {'w': list('ABC'), 's': L(n - 1) + 'É', 't': ['CITY'], 'a': []}, {'w': list('XYZ'), 's': '', 't': ['TYPE'], 'a': []}]
            c = rng.choice(['TYPE', 'CITY'])
            g = {'ADDRESS': {'m': [['r']]}, 'r': {'r': [{'in': [c, 'TYPE', c], 'out': [o, o, rng.choice([o, 'CITY'])], 's': 2048}]}}
            items.append(all_item(lex, 'ABC XYZ ABC', g, ['SPACE'], asp))
        # very many entries of the word
        for n in (12, 30):
            cs = rng.sample(gen.INN, n)
            lex = [{'w': list('ABC'), 's': 'S%d' % i, 't': [c], 'a': []} for i, c in enumerate(cs)]
            g = {'ADDRESS': {'m': [['r']]}, 'r': {'r': [{'in': [c], 'out': ['STREET'], 's': 1024 + i} for i, c in enumerate(cs)]}}
            items.append(all_item(lex, 'ABC', g, ['SPACE'], asp))
            items.append(all_item(lex, 'abc', {'ADDRESS': {'m': [['r']]}, 'r': {'r': g['r']['r'][n // 2:n // 2 + 1]}}, [], asp))
    # many derivations; many alternative phrases, the matching one last
    k = 9
    g = {'ADDRESS': {'m': [['s%d' % i for i in range(k)]]}}
    for i in range(k): g['s%d' % i] = {'r': [{'in': ['WORD'], 'out': ['STREET'], 's': gen.score(rng, 32)}, {'in': ['WORD'], 'out': [rng.choice(F)], 's': gen.score(rng, 24)}]}
    ws = [L(4) + 'Z' for _ in range(k)]
    items.append(all_item([{'w': list(w), 's': w, 't': ['WORD'], 'a': []} for w in dict.fromkeys(ws)], ' '.join(ws), g, ['SPACE'], asp))
    for n in (6, 7):
        lex = [{'w': list('ABC XYZ'), 's': 'ABC XYZ', 't': ['CITY'], 'a': []}, {'w': list('ABC'), 's': 'ABC', 't': ['TYPE'], 'a': []}, {'w': list('XYZ'), 's': 'XYZ', 't': ['ROAD'], 'a': []}]
        for m in (0, n, rng.randint(1, n - 1)):
            cls = ['TYPE', 'ROAD'] * m + ['CITY'] * (n - m)
            cls = [c for grp in [['TYPE', 'ROAD']] * m + [['CITY']] * (n - m) for c in grp]
            g = {'ADDRESS': {'m': [['r']]}, 'r': {'r': [{'in': cls, 'out': [rng.choice(F) for _ in cls], 's': 2048}]}}
            items.append(all_item(lex, ' '.join(['ABC XYZ'] * n), g, ['SPACE'], asp))
    return items


def run_large(ctx, asp, stdwords):
    its = [i for _ in range(ctx.n(1, 5)) for i in large_cases(ctx.rng, asp, stdwords)]
    suite.run(ctx, build.core(), 'TracePipeline', its, 'large addresses', limit=40, chunk=4)


LITERAL = {'NUMBER': ['12', '4567', '1', '805'], 'WORD': ['XYLO', 'OMEGAX', 'FOOBAR'], 'MIXED': ['12B7', 'X12Y'], 'SINGLE': ['Q', 'X'], 'DOUBLE': ['XQ'], 'QUAD': ['12345'[:4]], 'QUINT': ['02139'],
           'DASH': ['-'], 'COMMA': [','], 'SLASH': ['/'], 'FRACT': ['1/2'], 'PUNCT': ['.'], 'AMPERS': ['&'], 'PCT': ['A1B'], 'PCH': ['1A2'], 'ORD': ['4TH'], 'STOPWORD': ['OF']}


def real_cases(ctx, n, asp, stdwords):
    """the sample lexicons with the sample grammars: the addresses of the test data, and addresses made from derivations"""
    rng = ctx.rng
    exe = build.core()
    gs = dict(gen.sample_grammars(build.REPO, True))
    ss = [(f, e, gs[n]) for f, e in samples(ctx, 0) for n in [f.split('/')[-1][:-4]] if e and n in gs]
    us = us_addresses()
    cs = []
    while len(cs) < 2 * n and ss:
        f, ents, g = rng.choice(ss)
        if us and rng.random() < 0.4:
            usa = [x for x in ss if 'usa' in x[0]]
            if usa: f, ents, g = usa[0]
            t = rng.choice(us)
        else:
            m = gen.matching_phrase(rng, g, 9)
            if m is None: continue
            ws = []
            for c in m:
                have = [e for e in rng.sample(ents, min(len(ents), 150)) if c in e['t']]
                ws.append(''.join(rng.choice(have)['w']) if have and (c not in LITERAL or rng.random() < 0.3) else rng.choice(LITERAL.get(c, ['XYZZY'])))
            t = rng.choice([' ', ' ', ' ', ', ', '  ']).join(ws)
        if rng.random() < 0.4: t = rng.choice([t.lower(), t.title()])
        x = ents if stdwords else [dict(e, s=''.join(e['w'])) for e in ents]
        u = used(ents, [gen.canon(t)])
        if '\0' in t or len(u) > 70 or splittable(u, gen.canon(t)) > 3: continue
        cs.append((f, x, t, rng.choice([['SPACE'], ['SPACE'], ['SPACE', 'PUNCT'], ['SPACE', 'PUNCT', 'COMMA', 'DASH'], ['SPACE', 'STOPWORD']]), g))
    cs.sort(key=lambda c: c[0])
    rs = drv.run_items(exe, [[{'op': 'parse', 'addr': t, 'lex': gen.lex_text(l), 'filt': ','.join(f)}] for _, l, t, f, _ in cs])
    items = []
    for (_, l, t, f, g), r in zip(cs, rs):
        got = drv.rows(r[0]) if r else None
        if got is None: got = [{'pat': 0, 'inclass': 'WORD'}]        # a broken probe: the case itself shows it
        ps = [[]]
        for x in got:
            while len(ps) <= x['pat']: ps.append([])
            ps[x['pat']].append([c for c in x['inclass'].split(',') if c in gen.INNUM])
        if any(not all(p) or len(p) > 16 for p in ps) or sum(combos(p) for p in ps) > 300: continue
        if any(gen.count_derivs(g, p, cap=30) > 30 for p in ps): continue
        items.append(all_item(l, t, g, f, asp, shown=(used(l, [gen.canon(t)]), fitting(g, ps))))
    rng.shuffle(items)
    return items[:n]


def c03(ctx):
    exe = build.core()
    r = tlc.model('MCPipeline', consts={'MaxLen': str(ctx.n(2, 3))}, timeout=800)
    ctx.model(r, 'MCPipeline')
    items = cases(ctx, ctx.n(350, 6000), ['std'], False)
    items += cases(ctx, ctx.n(150, 2500), ['std'], False, outs=gen.OUT + ['BOXH', 'BOXT', 'UNITH', 'UNITT', 'STOP', 'EXTRA', 'IGNORE', 'IGNORE'])
    items += long_cases(ctx, ctx.n(150, 2500), ['std'], False)
    # one token per output class, so every field is filled alone and together
    rng = ctx.rng
    for _ in range(ctx.n(60, 400)):
        outs = rng.sample(gen.OUT, rng.choice([1, 2, 5, len(gen.OUT)]))
        ws = ['W%s' % chr(65 + k) for k in range(len(outs))]
        lex = [{'w': list(w), 's': w, 't': ['WORD'], 'a': []} for w in ws]
        g = {'ADDRESS': {'m': [['r']]}, 'r': {'r': [{'in': ['WORD'] * len(outs), 'out': outs, 's': 2048}]}}
        items.append(all_item(lex, ' '.join(ws), g, ['SPACE'], ['std']))
    suite.run(ctx, exe, 'TracePipeline', items, 'addresses with grammars made for them')
    suite.run(ctx, exe, 'TracePipeline', real_cases(ctx, ctx.n(80, 1500), ['std'], False), 'sample lexicons and grammars')
    run_large(ctx, ['std'], False)
    ctx.notes.append('addresses over seeded lexicons whose standard texts are the words themselves; grammars built from one of the tokenizations of the address with random cuts, classes and output classes')


def stdz_items(ctx, n):
    rng = ctx.rng
    items = []
    for _ in range(n):
        keys = [rng.choice(gen.PARTS) for _ in range(2)]
        lex = []
        for k in range(rng.choice([1, 3, 5, 7])):
            e = gen.rnd_entry(rng, rng.choice(keys), rng.sample(gen.LEXCLS, 5)); e['s'] = rng.choice(['S%d' % k, '', 'T %d' % k, e['s']])
            if e not in lex: lex.append(e)
        qs = []
        for w in keys + ['OTHER']:
            for c in rng.sample(gen.INN, 4) + sorted(set(c for e in lex for c in e['t'])): qs.append((w, c))
        cmds = [{'op': 'lnew', 'id': 'l', 'lex': gen.lex_text(lex)}] + [{'op': 'stdz', 'id': 'l', 'tok': [w, [c]]} for w, c in qs]

        def rec(rs, lex=lex, qs=qs):
            out = []
            for (w, c), r in zip(qs, rs[1:]):
                if 'exc' in r: raise Bad('exception ' + r['exc'])
                out.append({'k': 'std', 't': list(w), 'c': c, 'x': lex, 's': r['s']})
            return out
        items.append(Item(cmds, rec))
    return items


def c04(ctx):
    exe = build.core()
    suite.run(ctx, exe, 'TraceTokenizer', stdz_items(ctx, ctx.n(120, 2000)), 'standard text of a classified token')
    suite.run(ctx, exe, 'TracePipeline', cases(ctx, ctx.n(350, 6000), ['std'], True) + long_cases(ctx, ctx.n(150, 2500), ['std'], True), 'addresses with grammars made for them')
    suite.run(ctx, exe, 'TracePipeline', real_cases(ctx, ctx.n(80, 1500), ['std'], True), 'sample lexicons and grammars')
    run_large(ctx, ['std'], True)
    ctx.notes.append('lexicons with several entries per key whose standard texts differ by class; the answer has to use the entry of the class the derivation chose')

"""C05-C09: cutting, classifying, splitting, alternatives, filter."""
import glob, json, re, unicodedata
import build, tlc, gen, suite
from suite import Item, Bad

SAMPLE = '/repo/data/sample'
A_ALL = ['text', 'class', 'flag', 'alts']

MODEL_LEX = [
    [],
    [{'w': ['A', 'B'], 's': 'AB', 't': ['TYPE'], 'a': []}, {'w': ['A', ' ', 'B'], 's': 'X', 't': ['CITY'], 'a': []},
     {'w': ['B', '.'], 's': 'B', 't': ['WORD'], 'a': []}, {'w': ['B'], 's': 'B', 't': ['DIRECT'], 'a': ['ATT_SUF']}],
    [{'w': ['A'], 's': 'A', 't': ['TYPE'], 'a': ['ATT_PRE']}, {'w': ['B'], 's': 'B', 't': ['TYPE', 'WORD'], 'a': ['ATT_SUF', 'DET_SUF']},
     {'w': ['A', 'B', 'A'], 's': 'Q', 't': ['WORD'], 'a': ['ATT_PRE']}, {'w': ['1', ' ', 'A'], 's': '', 't': ['UNITH'], 'a': []},
     {'w': ['.', '/'], 's': 'Z', 't': ['PUNCT'], 'a': []}, {'w': ['1', 'B'], 's': 'B1', 't': ['ORD'], 'a': ['ATT_PRE', 'ATT_SUF']}]]


def lexkey(lex):
    return json.dumps(lex, sort_keys=True)


def load_cmd(lex, id='l'):
    return {'op': 'lnew', 'id': id, 'lex': gen.lex_text(lex)}


def tj(t):
    return {'t': list(t['t']), 'c': t['c'], 'l': t['l']}


def used(lex, texts):
    """the entries whose key occurs in one of the texts (all others cannot matter)"""
    return [e for e in lex if any(''.join(e['w']) in x for x in texts)]


def tok_item(lex, text, filt=(), asp=A_ALL, raw=False, load=True, reduce=False, **kw):
    cmds = ([load_cmd(lex)] if load else []) + [{'op': 'tok', 'id': 'l', 'addr': text, 'filter': list(filt)}]
    x = used(lex, [unicodedata.normalize('NFC', text).upper()]) if reduce else lex

    def rec(rs):
        r = rs[-1]
        for q in rs:
            if 'exc' in q: raise Bad('exception ' + q['exc'])
        return [{'k': 'raw' if raw else 'tok', 't': list(text), 'x': x, 'f': list(filt), 'asp': asp,
                 'toks': [tj(t) for t in r['toks']], 'alts': [[tj(t) for t in a] for a in r['alts']]}]
    return Item(cmds, rec, info=text, **kw)


def splittable(lex, text):
    return sum(text.count(k) for k in {''.join(e['w']) for e in lex if ' ' in e['w']})


def model(ctx, maxlen, alphabet='AB1 ./', lexs=MODEL_LEX):
    r = tlc.model('MCTokenizer', consts={'Alphabet': tlc.tla(set(alphabet)), 'MaxLen': str(maxlen), 'Lexicons': tlc.tla(lexs),
                                         'Filters': tlc.tla([]).replace('<<>>', '{{}, {"SPACE"}, {"SPACE", "PUNCT"}, {"WORD", "NUMBER"}}'), 'Emit': 'TRUE'}, timeout=800, heap='12g')
    ctx.model(r, 'MCTokenizer(alphabet %r, length <= %d, %d lexicons)' % (alphabet, maxlen, len(lexs)))
    return [(lexs[c['x'] - 1], ''.join(c['t'])) for c in r.printed('CASE')]


def samples(ctx, n):
    """(lexicon entries, addresses) of the shipped sample data"""
    out = []
    for f in sorted(glob.glob(SAMPLE + '/*.lex')):
        ents = []
        for l in open(f, encoding='utf-8', errors='replace').read().lstrip('\ufeff').split('\n'):
            p = re.sub(' +', ' ', l.rstrip('\r')).split('\t')
            if p[0].upper() == 'LEXENTRY:' and len(p) >= 4:
                q = [unicodedata.normalize('NFC', y).upper() for y in p]
                e = {'w': list(q[1]), 's': q[2], 't': sorted(set(y.strip() for y in q[3].split(',') if y.strip())), 'a': sorted(set(y.strip() for y in (q[4] if len(q) > 4 else '').split(',') if y.strip() in gen.ATT))}
                if q[1] and q[1].strip() == q[1] and all(t in gen.INNUM for t in e['t']): ents.append(e)
        out.append((f, ents))
    return out


def run_tok(ctx, cases, name, asp, filts=None, **kw):
    exe = build.core()
    items, last = [], None
    for k, (lex, text) in enumerate(cases):
        f = filts[k] if filts else ()
        items.append(tok_item(lex, text, f, asp, **kw))
    return suite.run(ctx, exe, 'TraceTokenizer', items, name)


def gen_cases(ctx, nlex, per, maxsplit=4):
    out = []
    for _ in range(nlex):
        lex = gen.rnd_lexicon(ctx.rng)
        for _ in range(per):
            t = gen.canon(gen.rnd_text(ctx.rng, lex))
            if gen.canon(t) != t or splittable(lex, t) > maxsplit: continue
            out.append((lex, t))
    return out


def long_cases(ctx, n):
    """many words per text, many entries per lexicon (the specification sees those whose key occurs)"""
    rng, out = ctx.rng, []
    while len(out) < n:
        lex = gen.big_lexicon(rng, rng.choice([20, 40, 80])) + gen.rnd_lexicon(rng, rng.choice([0, 4]))
        lex = [e for k, e in enumerate(lex) if e not in lex[:k] and gen.canon(''.join(e['w'])) == ''.join(e['w'])]
        for _ in range(2):
            t = gen.canon(gen.rnd_text(rng, lex, n=rng.choice([12, 20, 35])))
            if gen.canon(t) == t and splittable(lex, t) <= 3: out.append((lex, t))
    return out[:n]


def run_long(ctx, n, asp, filts=((),), **kw):
    exe = build.core()
    its = [tok_item(l, t, ctx.rng.choice(filts), asp, reduce=True, **kw) for l, t in long_cases(ctx, n)]
    suite.run(ctx, exe, 'TraceTokenizer', its, 'long texts, large lexicons', chunk=8)


def large_cases(rng):
    """(lexicon, text): lengths and counts far beyond what an address has"""
    E = lambda w, t=('TYPE',), a=(), s=None: {'w': list(w), 's': w if s is None else s, 't': list(t), 'a': list(a)}
    L = lambda n, al='ABCDEFGHIJKLMNOPRSTUVW': ''.join(rng.choice(al) for _ in range(n))
    D = lambda n: rng.choice('123456789') + ''.join(rng.choice('0123456789') for _ in range(n - 1))
    out = []
    some = [E('MAIN'), E('ST', ['TYPE', 'WORD'], ['ATT_SUF']), E('ÉC', ['DIRECT'], ['ATT_PRE']), E('A/B', ['CITY']), E('NEW YORK', ['CITY'])]
    # many words, long texts, wide characters
    for al, n in (('ABCDE', 320), ('ЖДИ', 160), ('中国日', 260), ('AÉ', 90)):
        t = rng.choice([' ', ' ', '  ', ', ']).join(rng.choice(['MAIN', 'ST', L(rng.randint(1, 8), al), L(3, al) + 'ST', D(rng.randint(1, 6)), 'A/B', 'AB12']) for _ in range(n))
        out.append((some, t))
    # one long word: letters, digits, both, a mark upon mark, an affix at either end
    for n in (33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513):
        w, d = L(n), D(n)
        out.append((some, rng.choice([w, d, d + 'A', 'B' + d, d + '/' + D(n // 2), w + D(2), D(2) + w, w + 'ST', 'ÉC' + w, 'ÉC' + w + 'ST', 'X ' + w + ' 12 MAIN', L(2) + ' ' + d + 'A ST'])))
    out.append((some, 'A' + '\u0301' * 200 + ' MAIN')); out.append((some, L(3) + '-' * 300 + 'MAIN')); out.append((some, 'X' + ' ' * 700 + 'MAIN'))
    out.append((some, ' ' * 1100 + 'MAIN ST')); out.append((some, '/'.join(L(1) for _ in range(150)))); out.append((some, '日' * 400 + '-' + '本' * 100))
    # long keys: found whole, not found when the text lacks the end or goes on
    for n in (50, 100, 260, 600):
        k = L(n); q = ' '.join(L(3) for _ in range(n // 8))
        lex = some + [E(k, ['CITY']), E(k[:n // 2], ['PROV']), E(q, ['NATION'])]
        lex = [e for e in lex if splittable(lex, ''.join(e['w'])) < 2]
        for t in (k, k[:-1], k + 'A', k[:n // 2] + ' X', 'X-' + k + '-X', q, q + 'X', 'X ' + q + ' ' + k, k[:n // 2] + k[n // 2:n // 2 + 1]): out.append((lex, t))
    # affixes of a length nobody expects, and many of them
    a, b = L(90), L(140)
    lex = [E(a, ['TYPE'], ['ATT_PRE']), E(b, ['TYPE'], ['ATT_SUF'])]
    out += [(lex, a + 'X' + b), (lex, a + b), (lex, 'X' + b), (lex, a[:-1] + 'X' + b), (lex, a + L(100) + b + ' ' + a)]
    lex = [E(L(1 + i // 8) + 'QZXY'[i % 4], ['TYPE'], [rng.choice(['ATT_PRE', 'ATT_SUF'])]) for i in range(150)]
    lex = [e for i, e in enumerate(lex) if e['w'] not in [f['w'] for f in lex[:i]]]
    out += [(lex, ' '.join(''.join(rng.choice(lex)['w']) + L(rng.randint(1, 4)) + ''.join(rng.choice(lex)['w']) for _ in range(12))) for _ in range(3)]
    # many entries of one key, many classes, many keys with one beginning, a large lexicon
    for n in (8, 20, 33):
        lex = [E('KEY', [c], [], 'S%d' % i) for i, c in enumerate(rng.sample(gen.INN, n))] + some
        out.append((lex, '12 KEY MAIN')); out.append((lex, 'KEYS KEY'))
        out.append(([E('KEY', gen.csort(rng.sample(gen.INN, n)))], 'A KEY 1'))
    k = L(4)
    lex = [E(k + L(1 + i % 9) + 'ABCDEFGHIJ'[i % 10], ['CITY']) for i in range(300)] + [E(k)]
    lex = [e for i, e in enumerate(lex) if e['w'] not in [f['w'] for f in lex[:i]]]
    out += [(lex, ' '.join(''.join(rng.choice(lex)['w']) + rng.choice(['', '', 'A']) for _ in range(20)) + ' ' + k) for _ in range(2)]
    lex = gen.big_lexicon(rng, 1500)
    seen, one = set(), []
    for e in lex:
        k = ''.join(e['w'])
        if k not in seen and gen.canon(k) == k: seen.add(k); one.append(e)
    for _ in range(3):
        t = ' '.join(''.join(rng.choice(one)['w']) for _ in range(30))
        if splittable(used(one, [t]), t) <= 3: out.append((one, t))
    return [(x, t) for x, t in out if gen.canon(t) == t and splittable(x, t) <= 3]


def run_large(ctx, asp, filts=((),), **kw):
    its = [tok_item(l, t, ctx.rng.choice(filts), asp, reduce=True, **kw) for _ in range(ctx.n(2, 10)) for l, t in large_cases(ctx.rng)]
    suite.run(ctx, build.core(), 'TraceTokenizer', its, 'large texts and lexicons', chunk=4)


def us_addresses():
    out = []
    for l in open('/repo/data/test-data-us.sql', encoding='utf-8', errors='replace'):
        p = l.rstrip('\n').split('\t')
        if len(p) >= 2 and re.search(r'\d', p[0]): out.append(p[0])
        elif len(p) > 2 and re.search(r'\d', p[1]): out.append(p[1])
    return out


def sample_cases(ctx, n):
    """sample lexicons, with addresses made of their entries (and real US addresses for the US lexicon)"""
    res = []
    ss = [s for s in samples(ctx, n) if s[1]]
    us = us_addresses()
    for k in range(n):
        f, ents = ss[k % len(ss)]
        if 'usa' in f.lower() and us and ctx.rng.random() < 0.7:
            t = gen.canon(ctx.rng.choice(us))
        else:
            t = gen.canon(gen.rnd_text(ctx.rng, ctx.rng.sample(ents, min(len(ents), 25)), n=ctx.rng.choice([2, 3, 4, 5])))
        res.append((f, ents, t))
    return res


def run_samples(ctx, n, asp, filt=()):
    exe = build.core()
    items = []
    for f, ents, t in sample_cases(ctx, n):
        u = used(ents, [t])
        if splittable(u, t) > 5: continue
        # the whole sample lexicon is loaded; the specification sees the entries whose key is in the text
        att = [e for e in ents if set(e['a']) & {'ATT_PRE', 'ATT_SUF'} and ''.join(e['w']) in t]
        items.append(tok_item(ents, t, filt, asp, reduce=True))
    items.sort(key=lambda i: i.cmds[0]['lex'][:4000])
    suite.run(ctx, exe, 'TraceTokenizer', items, 'sample lexicons', chunk=8)


def c05(ctx):
    cases = model(ctx, ctx.n(4, 5))
    if ctx.thorough: cases += model(ctx, 4, 'AB1_-É, ')
    if not ctx.thorough: cases = ctx.rng.sample(cases, 1500)
    asp = ['text']
    run_tok(ctx, cases, 'replay of the model', asp)
    run_tok(ctx, gen_cases(ctx, ctx.n(250, 4000), 6), 'generated texts', asp)
    run_samples(ctx, ctx.n(50, 600), asp)
    run_long(ctx, ctx.n(120, 1500), asp)
    run_large(ctx, asp)
    # not canonical texts: the tokenizer makes them canonical
    ra = []
    for _ in range(ctx.n(60, 800)):
        lex = gen.rnd_lexicon(ctx.rng)
        for _ in range(3):
            t = gen.rnd_text(ctx.rng, lex, lower=True)
            if splittable(lex, gen.canon(t)) <= 4: ra.append((lex, t))
    run_tok(ctx, ra, 'texts not in canonical form', asp, raw=True)
    ctx.notes.append('every text over a 6-character alphabet up to the model bound with 3 lexicons (a seeded sample of 1500 is replayed in the quick tier), then seeded lexicons with overlapping keys')


def words(alphabet, n):
    out = ['']
    layer = ['']
    for _ in range(n):
        layer = [w + c for w in layer for c in alphabet]
        out += layer
    return out[1:]


def class_item(lex, ws, default='WORD'):
    cmds = [load_cmd(lex)] + [{'op': 'classify', 'id': 'l', 'text': w, 'typ': default} for w in ws]

    def rec(rs):
        out = []
        for w, r in zip(ws, rs[1:]):
            if 'exc' in r: raise Bad('exception %s on %r' % (r['exc'], w))
            out.append({'k': 'class', 't': list(w), 'x': [e for e in lex if ''.join(e['w']) == w], 'd': default, 'tok': tj(r)})
        return out
    return Item(cmds, rec)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def c06(ctx):
    exe = build.core()
    rng = ctx.rng
    items = []
    # every word over representatives of each kind of character
    for w in chunks(words('A1É٣-/', ctx.n(3, 5)), 100): items.append(class_item([], w))
    for w in chunks(words("a9_.,&@—| \u0301", ctx.n(3, 4)), 100): items.append(class_item([], w))
    for w in chunks([x for x in words('AB12', 6) if ctx.thorough or rng.random() < 0.2], 100): items.append(class_item([], w))
    # each assigned category of character alone and doubled
    cps = [chr(c) for c in range(1, 0x3000) if c not in (0x85, 0x1c, 0x1d, 0x1e, 0x1f) and unicodedata.category(chr(c)) not in ('Cn', 'Cs')]
    cps += [chr(c) for c in (0xAC00, 0x4E2D, 0xFF11, 0xFF21, 0xFF0D, 0x1D400, 0x1D7CE, 0x10400, 0x1F600, 0xE000, 0xFEFF)]
    pick = cps if ctx.thorough else rng.sample(cps, 1500)
    for w in chunks(pick, 100): items.append(class_item([], w, 'PUNCT'))
    for w in chunks([c * 2 for c in pick[:len(pick) // 2]] + [c + '1' for c in pick[:len(pick) // 4]] + ['A' + c for c in pick[len(pick) // 4:len(pick) // 2]], 100): items.append(class_item([], w))
    # number shapes
    nums = []
    for _ in range(ctx.n(300, 3000)):
        d = ''.join(rng.choice('0123456789٣') if rng.random() < 0.15 else rng.choice('0123456789') for _ in range(rng.randint(1, 7)))
        if rng.random() < 0.5: d += rng.choice('.,/-:') + ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, 4)))
        if rng.random() < 0.2: d += rng.choice('.,/AÉ')
        nums.append(d)
    for w in chunks(nums, 100): items.append(class_item([], w))
    # lexicon entries: several entries of one key, keys that have a form, near misses
    for _ in range(ctx.n(150, 2500)):
        keys = [rng.choice(gen.MIX + gen.NUMS + ['&', '-', '/', '@', '--', '.', 'É', 'A']) for _ in range(3)]
        lex = gen.rnd_lexicon(rng, rng.choice([1, 3, 6]), keys)
        ws = sorted(set(''.join(e['w']) for e in lex))
        probes = ws + [w[:-1] for w in ws if len(w) > 1] + [w + 'A' for w in ws] + [rng.choice(gen.WORDS + gen.MIX + gen.NUMS) for _ in range(4)]
        items.append(class_item(lex, probes, rng.choice(['WORD', 'PUNCT'])))
    suite.run(ctx, exe, 'TraceTokenizer', items, 'classification')
    # lengths and numbers nobody expects
    items = []
    for n in (17, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 513, 1025):
        d = ''.join(rng.choice('0123456789') for _ in range(n)); w = ''.join(rng.choice('ABCÉЖ中') for _ in range(n))
        ws = [d, w, d + 'A', 'A' + d, d + '/' + d, d + '.5', '1,' + d, d + w, w + d, d[:-1] + w + '1', w + '-', '-' * n, ',' * n, '٣' * n, d + 'TH', w[:-1] + '\u0301', w + '_', d + '-' + d, '/' * n, '1/' * n, ' ' * n]
        items.append(class_item([], ws, 'WORD')); items.append(class_item([], ws, 'PUNCT'))
        lex = [{'w': list(x), 's': 'S', 't': [rng.choice(gen.LEXCLS)], 'a': []} for x in (w, w[:-1], d + 'A')]
        items.append(class_item(lex, [w, w[:-1], w + 'A', d + 'A', d, d + 'B'], 'WORD'))
        k = min(n, len(gen.INN))
        lex = [{'w': ['K'], 's': 'S%d' % i, 't': [gen.INN[i % k]], 'a': []} for i in range(n)] + [{'w': ['J'], 's': 'J', 't': gen.csort(rng.sample(gen.INN, k)), 'a': []}]
        items.append(class_item(lex, ['K', 'J', 'KK'], 'WORD'))
    suite.run(ctx, exe, 'TraceTokenizer', items, 'large words and entries')
    # inside a text
    asp = ['class', 'flag']
    run_tok(ctx, gen_cases(ctx, ctx.n(60, 1000), 5), 'generated texts', asp)
    run_samples(ctx, ctx.n(25, 300), asp)
    run_long(ctx, ctx.n(60, 800), asp)
    run_large(ctx, asp)
    from . import pipeline
    suite.run(ctx, exe, 'TracePipeline', pipeline.cases(ctx, ctx.n(60, 1000), ['parse'], True) + pipeline.long_cases(ctx, ctx.n(20, 400), ['parse'], True), 'through the C API')
    ctx.notes.append('every word over one representative per kind of character up to the bound, every character category, number shapes, lexicons with several entries per key')


def split_item(lex, ws):
    cmds = [load_cmd(lex)] + [{'op': 'split', 'id': 'l', 'text': w} for w in ws]

    def rec(rs):
        out = []
        for w, r in zip(ws, rs[1:]):
            if 'exc' in r: raise Bad('exception %s on %r' % (r['exc'], w))
            if r['tok']['l']: continue
            out.append({'k': 'split', 't': list(w), 'x': used(lex, [w]), 'tok': tj(r['tok']), 'toks': [tj(t) for t in r['toks']]})
        return out
    return Item(cmds, rec)


def c07(ctx):
    exe = build.core()
    rng = ctx.rng
    r = model(ctx, ctx.n(3, 5), 'AB1 ')     # SplitLossless on the model
    items = []
    full = words('AB', 6)
    affs = words('AB', 3)
    # lexicons: every choice of few attached keys over a two-letter alphabet
    for _ in range(ctx.n(60, 900)):
        lex = []
        for k in rng.sample(affs, rng.choice([1, 2, 3, 4])):
            a = rng.choice([['ATT_PRE'], ['ATT_SUF'], ['ATT_PRE', 'ATT_SUF'], ['DET_PRE'], ['DET_SUF', 'ATT_PRE']])
            lex.append({'w': list(k), 's': k, 't': [rng.choice(['TYPE', 'WORD', 'DIRECT'])], 'a': a})
        items.append(split_item(lex, full if ctx.thorough else rng.sample(full, 60)))
    # mixed words
    for w in chunks(words('A1É', ctx.n(5, 7)), 120): items.append(split_item([], w))
    items.append(split_item([{'w': ['A'], 's': 'A', 't': ['DIRECT'], 'a': ['ATT_PRE', 'ATT_SUF']}], words('A12', 4)))
    for n in range(1, 41):
        ds = [''.join(rng.choice('0123456789') for _ in range(n)) for _ in range(3)] + ['0' * n]
        cs = [rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ'), rng.choice('ÉÄÑŁЖДΩΣ中日あ한')]
        items.append(split_item([], sorted({w for d in ds for c in cs for w in (d + c, c + d, d + c + c, c + d + c, c + c + d, d + c + d)})))
    for n in (64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1025):
        d = ''.join(rng.choice('0123456789') for _ in range(n)); w = ''.join(rng.choice('ABCÉЖ中') for _ in range(n)); v = ''.join(rng.choice('ABCÉЖ中') for _ in range(n))
        att = [{'w': list(w), 's': w, 't': ['TYPE'], 'a': ['ATT_PRE']}, {'w': list(v), 's': v, 't': ['TYPE'], 'a': ['ATT_SUF']}, {'w': ['Q'], 's': 'Q', 't': ['TYPE'], 'a': ['ATT_PRE', 'ATT_SUF']}]
        items.append(split_item([], [d + 'A', 'A' + d, d + 'AA', 'AA' + d, d + 'A1', w + '1', '1' + w]))
        items.append(split_item(att, [w + v, w + 'X' + v, w + 'X', 'X' + v, w + v[:-1], w[1:] + v, w + d + v, 'Q' + w, w + 'Q', 'Q' + w + 'Q', 'Q' + d, d + 'Q', 'Q' + d + 'Q', w + w + v + v]))
        att = [{'w': list(''.join(rng.choice('AB') for _ in range(1 + i % 9)) + 'Z'), 's': 'Z', 't': ['TYPE'], 'a': [rng.choice(['ATT_PRE', 'ATT_SUF'])]} for i in range(n)]
        att = [e for i, e in enumerate(att) if e['w'] not in [f['w'] for f in att[:i]]]
        items.append(split_item(att, sorted({''.join(rng.choice(att)['w']) + rng.choice(['', 'X', 'AB', 'ZZ']) + ''.join(rng.choice(att)['w']) for _ in range(20)})))
    # realistic affixes
    for _ in range(ctx.n(150, 2500)):
        keys = [rng.choice(['STRASSE', 'STR', 'ALLEE', 'WEG', 'N', 'É', 'ÅS', "L'", 'D-', 'GATA', 'GATAN', 'STR.', '通り', '(A', 'A)', 'X.Y']) for _ in range(3)]
        lex = gen.rnd_lexicon(rng, 2, keys)
        for e in lex:
            if rng.random() < 0.7: e['a'] = sorted(set(e['a'] + [rng.choice(['ATT_PRE', 'ATT_SUF', 'ATT_SUF'])]))
        ks = [''.join(e['w']) for e in lex] or ['A']
        ws = []
        for _ in range(12):
            mid = rng.choice(['', 'HAUPT', 'É', 'X', '1', '12', 'Ж', rng.choice(ks)])
            ws.append((rng.choice(ks) if rng.random() < 0.6 else '') + mid + (rng.choice(ks) if rng.random() < 0.7 else ''))
        ws = [gen.canon(w) for w in ws if w and not any(c.isspace() for c in w)]
        items.append(split_item(lex, [w for w in ws if w]))
    suite.run(ctx, exe, 'TraceTokenizer', items, 'splitting of words')
    run_tok(ctx, gen_cases(ctx, ctx.n(50, 800), 4), 'generated texts', ['text', 'class'])
    run_long(ctx, ctx.n(60, 800), ['text', 'class'])
    run_large(ctx, ['text', 'class'])
    ctx.notes.append('all words of two letters up to length 6 against random sets of attached keys over the same letters, all mixed words up to the bound')


def alts_item(lex, toks, f):
    def rec(rs):
        if 'exc' in rs[1]: raise Bad('exception ' + rs[1]['exc'])
        return [{'k': 'alts', 'x': lex, 'f': f, 'toks': [{'t': list(t), 'c': c, 'l': False} for t, c in toks], 'alts': [[tj(t) for t in a] for a in rs[1]['alts']]}]
    return Item([load_cmd(lex), {'op': 'alts', 'id': 'l', 'toks': toks, 'filter': f}], rec)


def c08(ctx):
    exe = build.core()
    rng = ctx.rng
    model(ctx, ctx.n(4, 5), 'AB ')          # AltsOk on the model
    items = []
    for _ in range(ctx.n(300, 4000)):
        keys = [' '.join(rng.choice(gen.PARTS) for _ in range(rng.choice([2, 2, 3]))) for _ in range(3)]
        lex = gen.rnd_lexicon(rng, 4, keys, rx=0)
        n = rng.choice([1, 2, 3, 4, 5])
        ks = [''.join(e['w']) for e in lex]
        toks, sp = [], 0
        for _ in range(n):
            w = rng.choice(keys) if rng.random() < 0.5 and sp < ctx.n(5, 7) else rng.choice(ks + gen.PARTS + [' ', ',', '-', '12', 'A  B'])
            sp += len(w.split(' ')) > 1
            toks.append([w, gen.csort(set(rng.choice(gen.LEXCLS) for _ in range(rng.choice([1, 2]))))])
        f = rng.choice([[], ['SPACE'], ['SPACE', 'PUNCT'], ['TYPE', 'WORD']])
        items.append(alts_item(lex, toks, f))
    suite.run(ctx, exe, 'TraceTokenizer', items, 'alternatives of a phrase')
    # through the tokenizer
    cs = []
    for _ in range(ctx.n(150, 2500)):
        keys = [' '.join(rng.choice(gen.PARTS) for _ in range(rng.choice([2, 2, 3]))) for _ in range(3)]
        lex = gen.rnd_lexicon(rng, 3, keys, rx=0)
        for _ in range(2):
            t = gen.canon(rng.choice([' ', ', ', '-', '  ']).join(rng.choice(keys + gen.WORDS + gen.NUMS) for _ in range(rng.choice([1, 2, 3, 4]))))
            if splittable(lex, t) <= 5: cs.append((lex, t))
    run_tok(ctx, cs, 'generated texts', ['alts'])
    run_samples(ctx, ctx.n(25, 300), ['alts'], ['SPACE'])
    run_long(ctx, ctx.n(50, 600), ['alts'], ([], ['SPACE']))
    items = []
    for n in (8, 9, ctx.n(10, 11)):
        # many words to split: 2^n - 1 alternatives; a word of very many parts
        lex = [{'w': list(w), 's': w, 't': [c], 'a': []} for w, c in (('AB', 'TYPE'), ('CD', 'CITY'), ('X', 'DIRECT'))]
        toks = [[rng.choice(['AB X', 'X CD', 'AB  CD', 'Q X']), [rng.choice(gen.LEXCLS)]] for _ in range(n)]
        for _ in range(3): toks.insert(rng.randint(0, len(toks)), [rng.choice(['AB', ',', '12', ' ']), [rng.choice(gen.LEXCLS)]])
        items.append(alts_item(lex, toks, rng.choice([[], ['DIRECT']])))
        items.append(alts_item(lex, [['12', ['NUMBER']], [' '.join(rng.choice(['AB', 'CD', 'X', 'Q', '1']) for _ in range(n * 30)), ['CITY']]], []))
        items.append(alts_item(lex, [['A%d' % i, ['WORD']] for i in range(n * 20)] + [['AB CD', ['CITY']]], []))
    suite.run(ctx, exe, 'TraceTokenizer', items, 'very many alternatives')
    from . import pipeline
    suite.run(ctx, exe, 'TracePipeline', pipeline.cases(ctx, ctx.n(80, 1500), ['cut'], True) + pipeline.real_cases(ctx, ctx.n(30, 600), ['cut'], True), 'through the C API')
    pipeline.run_large(ctx, ['cut'], True)
    ctx.notes.append('phrases with 0-5 multi-word tokens; the list of alternatives has to be, as a bag, one phrase per non-empty subset of them')


def filt_item(toks, hist):
    def rec(rs):
        if 'exc' in rs[0]: raise Bad('exception ' + rs[0]['exc'])
        hs = [{'op': h[0], 'a': (h[1] if isinstance(h[1], list) else [h[1]]) if len(h) > 1 else [], 'f': o['f'], 'toks': [tj(t) for t in o['toks']]} for h, o in zip(hist, rs[0]['out'])]
        return [{'k': 'filt', 'toks': [{'t': list(t), 'c': c, 'l': False} for t, c in toks], 'hist': hs}]
    return Item([{'op': 'filt', 'toks': toks, 'hist': hist}], rec)


def c09(ctx):
    exe = build.core()
    rng = ctx.rng
    model(ctx, ctx.n(3, 4), 'AB1 /')        # FilterOk on the model
    cs, fs = [], []
    for _ in range(ctx.n(250, 4000)):
        keys = [' '.join(rng.choice(gen.PARTS) for _ in range(2)) for _ in range(2)]
        lex = gen.rnd_lexicon(rng, 5, keys)
        t = gen.canon(gen.rnd_text(rng, lex))
        if splittable(lex, t) > 4: continue
        cs.append((lex, t)); fs.append(rng.choice([[], ['SPACE'], ['PUNCT', 'SPACE'], rng.sample(gen.INN, 3), rng.sample(gen.INN, 12), ['WORD'], ['NUMBER', 'MIXED']]))
    run_tok(ctx, cs, 'generated texts and filters', ['text', 'alts'], fs)
    items = []
    for _ in range(ctx.n(400, 5000)):
        cl = rng.sample(gen.INN, 6)
        toks = [['T%d' % i, gen.csort(set(rng.choice(cl) for _ in range(rng.choice([1, 2, 3]))))] for i in range(rng.choice([0, 1, 3, 5]))]
        hist = []
        for _ in range(rng.choice([1, 3, 6, 8])):
            k = rng.choice(['set', 'add', 'add', 'rem', 'rem', 'clear'])
            hist.append([k] if k == 'clear' else [k, rng.sample(cl, rng.choice([0, 1, 2, 3]))] if k == 'set' else [k, rng.choice(cl)])
        items.append(filt_item(toks, hist))
    for n in (60, 200):
        cl = list(gen.INN)
        toks = [['T%d' % i, gen.csort(set(rng.choice(cl) for _ in range(rng.choice([1, 1, 2, 3, 12, 30]))))] for i in range(n)]
        hist = [['set', rng.sample(cl, 30)], ['set', cl], ['clear']] + [rng.choice([['add', c], ['add', c], ['rem', c]]) for _ in range(n // 3) for c in [rng.choice(cl)]] + [['set', []], ['add', 'WORD']]
        items.append(filt_item(toks, hist))
    suite.run(ctx, exe, 'TraceTokenizer', items, 'histories of filter changes')
    run_large(ctx, ['text', 'alts'], ([], ['SPACE'], ['SPACE', 'PUNCT', 'WORD'], ['NUMBER', 'MIXED', 'SPACE'], list(gen.INN)))
    run_long(ctx, ctx.n(50, 600), ['text', 'alts'], ([], ['SPACE'], ['SPACE', 'PUNCT', 'WORD'], ['NUMBER', 'MIXED', 'SPACE']))
    ctx.notes.append('random sets of filtered classes on texts whose alternatives uncover filtered words, and histories of set/add/remove/clear')

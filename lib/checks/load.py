"""C10, C11, C18: reading and writing grammars and lexicons, and the names of classes."""
import glob, itertools, json
import build, tlc, gen, suite
from suite import Item, Bad
from .token import SAMPLE, samples

GLINES = ["[ADDRESS]", "[a]", "[b]", "@a", "@a @b", "@c", "@a junk", "WORD -> STREET -> 0.5", "WORD -> -> 0.5", "# c", "", " [a] "]
GMORE = ["[ADDRESS]", "[ADDRESS]x", "[]", "@ADDRESS", "@b", "\t@a\t", "a@b", "NUMBER WORD -> HOUSE STREET -> 1.25", "NUMBER -> STREET -> 0", "WORD -> STREET -> nan", "WORD -> STREET", "-> -> 0.1", "[b]", "[a"]
LLINES = ["LEXICON:\tx\tENG\ten\t2", "LEXICON:\ty\tFRENCH\t\t0", "LEXENTRY:\tA\tB\tWORD\t", "LEXENTRY:\tA\tB\tWORD,TYPE\tATT_PRE", "LEXENTRY:\tB\tB\tWORD\t",
          "LEXENTRY:\ta  a\tb\tWORD\tATT_SUF", "LEXENTRY:\tA\tB\tNOPE\t", "junk", "", "LexEntry:\tA\tB\tWORD"]


def lines(text):
    return [list(l) for l in text.split('\n')]


def chunk_chars(text):
    return [list(l) for l in text.split('\n')]


# ---- grammars ----------------------------------------------------------------

VIA = itertools.cycle(['stream', 'text', 'stream', 'file', 'stream'])


def gload_item(text, via=None, **kw):
    via = via or next(VIA)

    def rec(rs):
        r = rs[0]
        return [{'k': 'load', 'ls': lines(text), 'exc': r.get('exc', ''), 'status': r.get('status', -9), 'issues': r.get('issues', ''), 'dump': r.get('dump', '')}]
    return Item([{'op': 'gload', 'gmr': text, 'via': via}], rec, info=text[:400], **kw)


def gagain_item(text, **kw):
    def rec(rs):
        a, r = rs
        if 'exc' in a: return []
        return [{'k': 'again', 'ls': lines(text), 'exc': r.get('exc', ''), 'd1': r.get('d1', ''), 'd2': r.get('d2', ''), 's1': r.get('s1', -9), 's2': r.get('s2', -9)}]
    return Item([{'op': 'gload', 'gmr': text}, {'op': 'greload', 'gmr': text}], rec, info=text[:400], **kw)


SCORES = ['0.5', '0.05', '0.001', '1', '1.0', '.5', '0.25', '2.75', '0.1', '0.7', '0.125', '3.99', '0.999', '+0.5', '00.5', '5.', '12', '0.05000']
BADSCORES = ['nan', '-nan', 'NAN', '0', '-0.5', '', '0.0', 'x', '-1', '-']


def num(rng):
    r = rng.random()
    if r < 0.5: return rng.choice(SCORES)
    if r < 0.9: return '%d.%s' % (rng.randint(0, 3), ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 4))))
    return str(rng.randint(1, 9))


def okscore(s):
    try: return 0.001 <= float(s) < 100
    except ValueError: return False


def rule_line(rng, good=True):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 9])
    ins = [rng.choice(gen.INN) for _ in range(n)]
    outs = [rng.choice(gen.OUT) for _ in range(n)]
    sc = num(rng)
    while not okscore(sc): sc = num(rng)
    sp = lambda: rng.choice([' ', ' ', ' ', '  ', '\t', ' \t '])
    if not good:
        k = rng.randint(0, 9)
        if k == 0: outs = outs[:-1] if outs else ['STREET']
        elif k == 1: outs = outs + ['STREET']
        elif k == 2: sc = rng.choice(BADSCORES)
        elif k == 3: return ' '.join(ins + ['->'] + outs)
        elif k == 4: return ' '.join(ins + outs + [sc])
        elif k == 5: return ' '.join(ins + ['->'] + outs + ['->', sc, '->', 'WORD'])
        elif k == 6: return ' '.join(ins + ['->'] + outs + ['->', sc, rng.choice(['0.5', 'junk', '# comment', '0'])])
        elif k == 7: ins = [rng.choice(['word', 'NOPE', 'STREET', 'WORD,', '0', 'ORDD']) if rng.random() < 0.5 else c for c in ins]
        elif k == 8: outs = [rng.choice(['street', 'NOPE', 'WORD', 'HOUSE,']) if rng.random() < 0.5 else c for c in outs]
        else: return ' '.join(ins + ['->'] + outs + ['- >', sc]) if rng.random() < 0.5 else '->'.join([' '.join(ins), ' '.join(outs), sc])
    s = ''
    for w in ins + ['->'] + outs + ['->', sc]: s += w + sp()
    return (sp() if rng.random() < 0.1 else '') + s.rstrip(' \t') + (sp() if rng.random() < 0.1 else '')


def name(rng):
    return rng.choice(['a', 'b', 'c', 'Addr', 'x_1', '_', '9', 'é', 'Жх', '中', 'MACRO', 'city', 'ADDRES', 'ADDRESS_', 'ab'])


def rnd_gmr(rng, harm, big=False):
    """text of a grammar; harm: number of mutations of a sound one"""
    if big:
        metas = ['ADDRESS'] + ['m%d' % i for i in range(rng.choice([8, 14, 20]))]
        rules = ['s%d' % i for i in range(rng.choice([10, 20, 35]))]
    else:
        metas = ['ADDRESS'] + list(dict.fromkeys(name(rng) for _ in range(rng.randint(0, 4))))
        rules = [x for x in dict.fromkeys('r' + name(rng) for _ in range(rng.randint(1, 5)))]
    if rng.random() < 0.06: metas, rules = [], ['ADDRESS'] + rules
    secs = []
    for i, m in enumerate(metas):
        ls = ['@' + rng.choice(['', ' ']).join([]) + (rng.choice([' @', '@', '\t@', '  @'])).join(rng.choice(metas[i + 1:] + rules + (metas[1:] if rng.random() < .2 else [])) for _ in range(rng.choice([1, 1, 2, 3, 4] if not big else [2, 4, 7, 11])))
              for _ in range(rng.choice([1, 1, 2, 3] if not big else [1, 3, 6]))]
        secs.append([m, ls])
    for r in rules:
        secs.append([r, [rule_line(rng) for _ in range(rng.choice([1, 2, 3] if not big else [1, 4, 9]))]])
    # make most grammars free of unreferenced sections
    if metas and rng.random() < 0.6:
        used = set(x for _, ls in secs for l in ls for x in l.replace('\t', ' ').replace('@', ' ').split())
        for m in metas[1:] + rules:
            if m not in used: secs[0][1].append('@' + m)
    if rng.random() < 0.5:
        rng.shuffle(secs)
    out = []
    for n, ls in secs:
        out.append(rng.choice(['', '', '', ' ', '\t']) + '[' + n + ']' + rng.choice(['', '', '', ' ', '\t', '\r']))
        out += ls
        if rng.random() < 0.7: out.append('')
    for _ in range(harm):
        k = rng.randint(0, 13)
        i = rng.randrange(len(out)) if out else 0
        if k == 0: out.insert(i, rng.choice(['# note', '  # note', '', '   ', '\t', '#', '\u3000', '\u00a0# x', '#@a', '#[a]']))
        elif k == 1: out.insert(i, rule_line(rng, False))
        elif k == 2: out.insert(i, '[' + name(rng) + ']')
        elif k == 3: out.insert(i, rng.choice(['@a', '@' + name(rng), '@a junk', 'junk', '@', '@@a', 'a@b', '@a-b', '@a,@b', '@ a', '@a # x', '@é@b']))
        elif k == 4 and out: del out[i]
        elif k == 5 and out: out[i] = out[i][:-1]
        elif k == 6 and out: out[i] = out[i] + rng.choice([' ', ']', '[', '#', '@', '\r', '\t', 'x', ' -> '])
        elif k == 7: out.insert(0, rng.choice(['', '# head', '@a', 'WORD -> STREET -> 1', '[]', '[ ]', '[[a]]', '[a]]']))
        elif k == 8 and out: j = rng.randrange(len(out)); out[i], out[j] = out[j], out[i]
        elif k == 9 and out: out.insert(rng.randrange(len(out)), out[i])
        elif k == 10 and out: out[i] = out[i].replace('ADDRESS', rng.choice(['ADRESS', 'address', 'ADDRESS ', ' ADDRESS']))
        elif k == 11 and out: out[0] = '\ufeff' + out[0]
        elif k == 12: out = out + ['[z]', rule_line(rng)]
        elif k == 13: out = out[:i]
    t = '\n'.join(out)
    if rng.random() < 0.8: t += '\n'
    if rng.random() < 0.08: t = t.replace('\n', '\r\n')
    return t


def okgmr(t):
    """inside the domain: numbers a decimal reader and the code agree on"""
    if '\0' in t: return False
    for l in t.split('\n'):
        p = l.split()
        ar = [i for i, w in enumerate(p) if w == '->']
        if len(ar) >= 2 and '@' not in l and p[ar[1] + 1:]:
            s = p[ar[1] + 1:][-1]
            if s.lower() in ('nan', '-nan'): continue
            try: v = float(s)
            except ValueError:
                if s[0] in '0123456789+-.' and s not in ('-', '+', '->'): return False
                if s[0].lower() in 'in': return False
                continue
            if v != 0 and not (0.001 <= abs(v) < 100): return False
            if any(c not in '0123456789+-.' for c in s): return False
            if len(s.lstrip('+-0.').replace('.', '').rstrip('0')) > 5: return False
    return True


def gmr_texts(ctx, n, big=False):
    rng, out = ctx.rng, []
    while len(out) < n:
        t = rnd_gmr(rng, rng.choice([0, 0, 1, 1, 1, 2, 3]), big)
        if okgmr(t): out.append(t)
    return out


def gsamples(n):
    fs = sorted(glob.glob(SAMPLE + '/*.gmr'), key=lambda f: len(open(f, 'rb').read()))
    out = []
    for f in fs[:n]:
        t = open(f, 'rb').read().decode('utf-8', 'replace')
        if okgmr(t): out.append(t)
    return out


def large_gmrs(rng):
    """texts of grammars far larger than one writes"""
    out = []
    def rule(n, d=0): return ' '.join([rng.choice(gen.INN) for _ in range(n)] + ['->'] + [rng.choice(gen.OUT) for _ in range(n + d)] + ['->', rng.choice(['0.5', '0.25', '0.75'])])
    def wrap(*ls): return '\n'.join(('[ADDRESS]', '@a', '', '[a]') + ls) + '\n'
    for n in (17, 20, 21, 25, 32, 33, 64, 65, 100, 129, 257):
        out.append(wrap(rule(n)))
        if rng.random() < 0.5: out.append(wrap(rule(2), rule(n, rng.choice([-1, 1])), rule(3)))
    for n in (101, 129, 260, 520):
        # many rules in a section; many lines in a meta; many sections; what is wrong stands late
        rs = [rule(rng.choice([1, 2, 3])) for _ in range(n)]
        out.append(wrap(*rs))
        out.append(wrap(*(rs + [rule(2, 1)])))
        out.append(wrap(*(rs + ['[a]'])))
        secs = ['r%d' % i for i in range(n)]
        body = [l for x in secs for l in ('[%s]' % x, rule(1))]
        for miss in ((), ('gone',)):
            out.append('\n'.join(['[ADDRESS]'] + ['@' + x for x in secs] + ['@' + x for x in miss] + body) + '\n')
        out.append('\n'.join(['[ADDRESS]', ' '.join('@' + x for x in secs)] + body + ['[late]', rule(1)]) + '\n')
        ms = ['m%d' % i for i in range(n // 2)]
        out.append('\n'.join(['[ADDRESS]', '@m0'] + [l for x, y in zip(ms, ms[1:] + ['r']) for l in ('[%s]' % x, '@' + y)] + ['[r]', rule(1)]) + '\n')
        out.append(wrap(*(['# c', ''] * n + [rule(1)] + ['', '#'] * n)))
    for n in (64, 129, 257, 300, 1025, 4100):
        nm = ''.join(rng.choice('abcXYZ_09') for _ in range(n))
        out.append('[ADDRESS]\n@%s\n[%s]\n%s\n' % (nm, nm, rule(1))); out.append('[ADDRESS]\n@%s\n[%s]\n%s\n' % (nm + 'x', nm, rule(1)))
        out.append('[ADDRESS]\n@a%s@a\n[a]\nWORD%s-> STREET ->%s0.5\n' % (' ' * n, ' ' * n, '\t' * n)); out.append(wrap('#' + 'c' * n, rule(1), '# ' + rule(n // 10), rule(2)))
        out.append(wrap('WORD -> STREET -> 0.' + '0' * 2 + '5', 'W' * n + ' -> STREET -> 0.5', rule(1)))
    return [t for t in out if okgmr(t)]


def large_lexs(rng):
    """texts of lexicons with very long lines, very many entries, very many entries of one key"""
    out = []
    W = lambda n, al='ABÉ中': ''.join(rng.choice(al) for _ in range(n))
    def text(*ls): return '\n'.join(('LEXICON:\tx\tENG\ten\t1',) + ls) + '\n'
    def E(k, s='S', t='WORD', a=''): return '\t'.join(['LEXENTRY:', k, s, t, a])
    for n in (100, 128, 255, 256, 257, 300, 513, 1025, 2050, 4100):
        k = W(n, 'ABQ') if n > 2100 else W(n)
        out.append(text(E('A'), E(k, 'S'), E('B', k + 'B'), E('A', 'x' * n, 'TYPE'), E('Z')))
        out.append(text(E(k), E(k[:-1], 'T'), E(k, 'U', 'TYPE')))
        out.append(text('junk' * n, E('A'), '#' + 'x' * n + '\tA\tB\tWORD\t', E('B')))
        out.append(text(E('A', 'S', ','.join(rng.choice(gen.INN) for _ in range(min(n, 600)))), E('B', 'S', 'WORD', ','.join(rng.choice(gen.ATT) for _ in range(min(n, 600)))), E('C', '', ' ,'.join(gen.INN))))
        out.append('LEXICON:\t%s\tENG\ten\t1\n%s\n%s\n' % ('x' * n, E('A'), E('A', 'x', 'TYPE')))
    for n in (9, 17, 33, 65, 129, 260, 520):
        out.append(text(*[E('K', 'S%d' % i, rng.choice(gen.INN)) for i in range(n)]))
        out.append(text(*([E('K%d' % i, 'S%d' % i, rng.choice(gen.INN)) for i in range(n)] + [E('LAST', 'x', 'NOPE')])))
        out.append(text(*([E('K%d' % (i % 40), 'S%d' % (i % 50), 'WORD') for i in range(n)] + ['LEXICON:\tz\tFRENCH\tfr\t1', E('K1', 'late')])))
        out.append('\n'.join(['# note', ''] * n) + '\n' + text(*[E('K%d' % i) for i in range(3)]) + 'junk\n\n' * n + E('END') + '\n')
    return [t for t in out if oklex(t)]


def gmodel(ctx):
    r = tlc.model('MCGrammarLoad', consts={'Lines': tlc.tla(GLINES), 'MaxLines': '4', 'Emit': 'TRUE'}, timeout=800)
    ctx.model(r, 'MCGrammarLoad(%d lines, texts <= 4 lines)' % len(GLINES))
    out = ['\n'.join(GLINES[i - 1] for i in c) for c in r.printed('CASE')]
    if ctx.thorough:
        r = tlc.model('MCGrammarLoad', consts={'Lines': tlc.tla(GLINES[:10] + GMORE), 'MaxLines': '4', 'Emit': 'FALSE'}, timeout=800, heap='12g')
        ctx.model(r, 'MCGrammarLoad(%d lines, texts <= 4 lines)' % (10 + len(GMORE)))
    return out


def pick(ctx, xs, n):
    return xs if len(xs) <= n else ctx.rng.sample(xs, n)


def c10(ctx):
    exe = build.core()
    ts = gmodel(ctx)
    n = ctx.n(3000, 21000)
    suite.run(ctx, exe, 'TraceGrammarLoad', [gload_item(t) for t in pick(ctx, ts, n)], 'replay of the model')
    # longer texts over the model's lines
    rng = ctx.rng
    more = ['\n'.join(rng.choice(GLINES + GMORE) for _ in range(rng.choice([5, 6, 7, 8]))) for _ in range(ctx.n(800, 10000))]
    # texts that are nearly correct
    base = ['[ADDRESS]', '@a @b', '[a]', 'WORD -> STREET -> 0.5', '[b]', '@a']
    for _ in range(ctx.n(800, 8000)):
        b = list(base)
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(b) + 1)
            if rng.random() < 0.6: b.insert(i, rng.choice(GLINES + GMORE))
            elif i < len(b): b[i] = rng.choice(GLINES + GMORE)
        more.append('\n'.join(b))
    suite.run(ctx, exe, 'TraceGrammarLoad', [gload_item(t) for t in more if okgmr(t)], 'longer texts over the lines of the model')
    suite.run(ctx, exe, 'TraceGrammarLoad', [gload_item(t) for t in gmr_texts(ctx, ctx.n(1500, 20000)) + gsamples(ctx.n(4, 40))], 'generated and sample grammars')
    suite.run(ctx, exe, 'TraceGrammarLoad', [gload_item(t) for t in gmr_texts(ctx, ctx.n(80, 1500), True)], 'grammars of many sections', chunk=8)
    suite.run(ctx, exe, 'TraceGrammarLoad', [gload_item(t) for _ in range(ctx.n(1, 6)) for t in large_gmrs(ctx.rng)], 'large grammars', chunk=4)
    ctx.notes.append('each case is a grammar text; the verdict (refused and why, warnings, the sections read) has to be the one of the specification')
    ctx.assumptions.append('rule scores are decimals in [0.001, 100) with at most 5 significant digits')


# ---- lexicons ----------------------------------------------------------------

def keys_of(text):
    """keys to ask for: whatever stands in a second column, as it is and canonical"""
    ks = []
    for l in text.split('\n'):
        p = l.rstrip('\r').split('\t')
        for x in p[:2]:
            for y in (x, gen.canon(x), gen.canon(' '.join(x.split(' ')))):
                if y and y not in ks: ks.append(y)
    return ks[:40] + ['', 'ZZZ']


def ent(e):
    return {'w': list(e['w']), 's': list(e['s']), 't': e['t'], 'a': e['a']}


def lload_item(text, keys=None, via=None, **kw):
    via = via or next(VIA)
    ks = keys if keys is not None else keys_of(text)

    def rec(rs):
        r = rs[0]
        return [{'k': 'load', 'name': 'unknown' if via == 'text' else 'x', 'ls': lines(text), 'exc': r.get('exc', ''), 'lang': r.get('lang', ''), 'locale': r.get('locale', ''), 'dump': r.get('dump', ''),
                 'find': [{'k': list(k), 'es': [ent(e) for e in es]} for k, es in zip(ks, r.get('find', []))]}]
    return Item([{'op': 'lload', 'lex': text, 'keys': ks, 'via': via}], rec, info=text[:400], **kw)


def lagain_item(text, **kw):
    def rec(rs):
        a, d, b, e = rs
        if 'exc' in a: return []
        return [{'k': 'again', 'ls': lines(text), 'exc': b.get('exc', ''), 'd1': d.get('dump', ''), 'd2': e.get('dump', '')}]
    return Item([{'op': 'lnew', 'id': 'a', 'lex': text}, {'op': 'ldump', 'id': 'a'}, {'op': 'lreload', 'id': 'a', 'to': 'b'}, {'op': 'ldump', 'id': 'b'}], rec, info=text[:400], **kw)


def leline_item(line):
    def rec(rs):
        r = rs[0]
        if 'exc' in r: raise Bad('exception ' + r['exc'])
        return [{'k': 'line', 'l': list(line), 'e': ent(r), 'dump': r['dump'], 'again': ent(r['again']), 'flags': r['flags'], 'same': r['same']}]
    return Item([{'op': 'leline', 'line': line}], rec, info=line)


def micro(x):
    return int(round(x * 1000000)) if x is not None and abs(x) < 1e6 else -999


def rule_item(line):
    def rec(rs):
        r = rs[0]
        if 'exc' in r: return [{'k': 'rule', 'l': list(line), 'exc': r['exc']}]
        a = r['rules'][0]
        return [{'k': 'rule', 'l': list(line), 'exc': '', 'in': a['in'], 'out': a['out'], 'v': micro(a['score']), 'dump': r['dump'],
                 'same': json.dumps(r['again'][0]) == json.dumps(a)}]
    return Item([{'op': 'rule', 'line': line}], rec, info=line)


KEYS = ['A', 'B', 'a', 'AB', 'A B', 'a  b', 'É', 'E\u0301', 'é', 'Ж', 'ж', 'ß', 'ﬁ', 'A.', '中国', '1', 'O\'x', 'ǆ', 'i', 'ı', 'Å', '\u212b', 'q\u0323\u0307', 'q\u0307\u0323', '각', '\u1100\u1161\u11a8', '"', '\\', 'A/B', 'A,B', 'ά']


def entry_line(rng, good=True):
    t = ','.join(rng.sample(gen.INN, rng.choice([0, 1, 1, 1, 2, 3, 5])))
    if rng.random() < 0.15: t = t.replace(',', rng.choice([' ,', ', ', ' , ', ',,']))
    if rng.random() < 0.03: t = ',' + t
    if rng.random() < 0.05: t = t.lower()
    a = ','.join(rng.sample(gen.ATT + ['det_pre', 'X', 'ATT'], rng.choice([0, 0, 1, 2, 3])))
    p = ['LEXENTRY:', rng.choice(KEYS), rng.choice(KEYS + ['', '']), t, a]
    r = rng.random()
    if not good and r < 0.5: p[3] = t + rng.choice([',NOPE', ',STREET', ',WORDS', ',DET_PRE', ',-1'])
    elif not good and r < 0.7: p[0] = rng.choice(['LexEntry:', 'lexentry:', 'LEXENTRY', ' LEXENTRY:', 'LEXENTRY: ', 'LEXENTRY:x', '# LEXENTRY:', 'LEXICON:', 'BOXENTRY:'])
    elif r < 0.06: p = p[:rng.choice([3, 4])]
    elif r < 0.1: p.append('more')
    return '\t'.join(p)


LANGS = ['ENG', 'FRE', 'GER', 'FRENCH', 'GERMAN', 'eng', '', 'XXX', 'UNKNOWN', 'CHINESE_MODERN', 'UKX', 'ALB', 'SWEDISH', 'GREK_TRANSLITERATED', 'CROATIAN', 'SRB', 'THA', 'ENGLISH ']


def rnd_lex(rng, harm, big=False):
    loc = rng.choice(['en', 'en', 'en_US', 'fr_CA', 'de', ''])
    head = '\t'.join(['LEXICON:', rng.choice(['x', 'a name', 'é', '']), rng.choice(LANGS), loc, rng.choice(['0', '12', 'x', ''])][:rng.choice([5, 5, 5, 5, 4, 3])])
    out = [head] + [entry_line(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8] if not big else [40, 80, 120]))]
    if rng.random() < 0.3: out.insert(0, rng.choice(['# note', '', 'whatever', 'lexicon:', ' LEXICON:', 'LexEntry:\tA\tA\tWORD']))
    for _ in range(harm):
        i = rng.randrange(len(out) + 1)
        k = rng.randint(0, 9)
        if k <= 3: out.insert(max(i, 1), entry_line(rng, False))
        elif k == 4: out.insert(i, rng.choice(['', '', 'junk', '#', ' ', '\t', 'LEXENTRY:', 'LEXICON:\ta\tENG\ten\t1', 'LEXICON:', '\r', '  ']))
        elif k == 5: out[0] = out[0].replace('LEXICON:', rng.choice(['LEXICON', 'Lexicon:', 'LEXICON: ', 'LEXICON:x', 'lexicon:', 'LEXICONS:', '\ufeffLEXICON:', '\ufeff\ufeffLEXICON:']))
        elif k == 6 and i < len(out): out.insert(rng.randrange(1, len(out) + 1), out[i])
        elif k == 7 and i < len(out): del out[i]
        elif k == 8: out[0:1] = ['\ufeff' + (out[0] if out else '')]
        elif k == 9 and out: out = out[:i]
        if not out: out = ['']
    t = '\n'.join(out) + rng.choice(['\n', '\n', ''])
    if rng.random() < 0.15: t = t.replace('\n', '\r\n')
    return t


def oklex(t):
    """inside the domain of the specification (see DESIGN.md)"""
    import unicodedata
    if '\0' in t: return False
    ph = 'head'
    for l in (t[1:] if t[:1] == '\ufeff' else t).split('\n'):
        l = l.rstrip('\r') if l.count('\r') <= 1 and l.endswith('\r') else l
        if '\r' in l: return False
        if ph == 'head':
            if l.startswith('LEXENTRY:'): return True
            if l.startswith('LEXICON:'):
                if l.split('\t')[0] != 'LEXICON:': return True
                ph = 'body'
                f = l.split('\t')
                # getline leaves its target alone at the end of the line: columns are all there or the language is read from the last
                if len(f) < 4: return False
            continue
        p = l.split('\t')
        if l[:9] in ('LEXENTRY:', 'LexEntry:'):
            g = p[1:] if p[0] == 'LEXENTRY:' else p
            if len(p) < 2 or not g or g[0] == '': return False
            if p[0].upper() == 'LEXENTRY:' and l[:9] == 'LexEntry:' and len(p) < 4: return False
            if any(x != '' and x.strip(' ') == '' for q in p[2:5] for x in q.split(',')): return False
            if any(c in l for c in '\x85\x1c\x1d\x1e\x1f'): return False
    return True


def lex_texts(ctx, n, big=False):
    rng, out = ctx.rng, []
    while len(out) < n:
        t = rnd_lex(rng, rng.choice([0, 0, 1, 1, 2]), big)
        if oklex(t): out.append(t)
    return out


def lmodel(ctx):
    r = tlc.model('MCLexiconLoad', consts={'Lines': tlc.tla(LLINES), 'MaxLines': str(ctx.n(4, 5)), 'Emit': 'TRUE'}, timeout=800, heap='12g')
    ctx.model(r, 'MCLexiconLoad(%d lines, texts <= %d lines)' % (len(LLINES), ctx.n(4, 5)))
    return [t for t in ('\n'.join(LLINES[i - 1] for i in c) for c in r.printed('CASE')) if oklex(t)]


def reduced_samples(ctx, n, per):
    """sample lexicons cut to some of their lines (all of them in the thorough tier would be slow to judge)"""
    out = []
    fs = sorted(glob.glob(SAMPLE + '/*.lex'))
    for k in range(n):
        f = fs[k % len(fs)]
        ls = open(f, 'rb').read().decode('utf-8', 'replace').split('\n')
        head = [l for l in ls[:1]]
        body = ls[1:]
        i = ctx.rng.randrange(max(1, len(body) - per))
        t = '\n'.join(head + body[i:i + per])
        if oklex(t): out.append(t)
    return out


def c11(ctx):
    exe = build.core()
    suite.run(ctx, exe, 'TraceLexiconLoad', [lload_item(t) for t in pick(ctx, lmodel(ctx), ctx.n(2500, 20000))], 'replay of the model')
    suite.run(ctx, exe, 'TraceLexiconLoad', [lload_item(t) for t in lex_texts(ctx, ctx.n(2000, 20000)) + reduced_samples(ctx, ctx.n(25, 200), 40)], 'generated and sample lexicons')
    suite.run(ctx, exe, 'TraceLexiconLoad', [lload_item(t) for t in lex_texts(ctx, ctx.n(50, 800), True)], 'lexicons of many entries', chunk=8)
    suite.run(ctx, exe, 'TraceLexiconLoad', [lload_item(t) for _ in range(ctx.n(1, 6)) for t in large_lexs(ctx.rng)], 'large lexicons', chunk=4)
    ctx.notes.append('each case is a lexicon text; refusal and reason, language, locale, the entries found under each key, and the whole content are compared')


def conv_item(names, nums):
    def rec(rs):
        r = rs[0]
        if 'exc' in r: raise Bad('exception ' + r['exc'])
        out = []
        for n, o in zip(names, r['names']):
            out.append({'k': 'name', 'n': list(n), 'in1': o[0], 'inN': o[1], 'out1': o[2], 'outN': o[3], 'inset': o[4], 'attset': o[5], 'lang': o[6], 'langname': o[7], 'instr': o[8], 'attstr': o[9]})
        for n, o in zip(nums, r['nums']): out.append({'k': 'num', 'n': n, 'in': o[0], 'out': o[1]})
        return out
    return Item([{'op': 'conv', 'names': names, 'nums': nums}], rec)


def c18(ctx):
    exe = build.core()
    rng = ctx.rng
    gm = [t for t in gmr_texts(ctx, ctx.n(1500, 15000))]
    its = [gagain_item(t) for t in gm + gsamples(ctx.n(3, 40)) + gmr_texts(ctx, ctx.n(30, 500), True)]
    its += [rule_item(l) for l in (rule_line(rng, rng.random() < 0.7) for _ in range(ctx.n(1200, 12000))) if okgmr(l)]
    suite.run(ctx, exe, 'TraceGrammarLoad', its, 'grammars and rules written and read back')
    its = [lagain_item(t) for t in lex_texts(ctx, ctx.n(1200, 12000)) + reduced_samples(ctx, ctx.n(15, 150), 40) + lex_texts(ctx, ctx.n(20, 400), True)]
    for _ in range(ctx.n(800, 8000)):
        l = entry_line(rng)
        if oklex('LEXICON:\tx\tENG\ten\t0\n' + l) and not any(c in l.split('\t')[3:4] for c in ('',)): its.append(leline_item(l))
    suite.run(ctx, exe, 'TraceLexiconLoad', its, 'lexicons and entries written and read back')
    suite.run(ctx, exe, 'TraceGrammarLoad', [gagain_item(t) for _ in range(ctx.n(1, 4)) for t in large_gmrs(rng)], 'large grammars', chunk=4)
    suite.run(ctx, exe, 'TraceLexiconLoad', [lagain_item(t) for _ in range(ctx.n(1, 4)) for t in large_lexs(rng)], 'large lexicons', chunk=4)
    langs = [l for p in LANGTAB() for l in p]
    names = gen.INN + gen.OUT + gen.ATT + langs + ['BADTOKEN', 'UNKNOWN', 'NOPE', 'word', '', 'WORD ', ' WORD', 'WORDS', 'WOR']
    names += [rng.choice([',', ', ', ' ,', ',,']).join(rng.choice(gen.INN + gen.ATT + ['NOPE', 'word']) for _ in range(rng.choice([2, 3, 4]))) for _ in range(ctx.n(300, 4000))]
    suite.run(ctx, exe, 'TraceClasses', [conv_item(names[i:i + 40], list(range(-5, 120)) if i == 0 else []) for i in range(0, len(names), 40)], 'class, attachment and language names')
    ctx.exhaustive = None
    ctx.notes.append('every class, attachment and language name and every class number from -5 to 119; grammars, rules, lexicons and entries are written and read back')


def LANGTAB():
    import re
    t = open(tlc.SPEC + '/Classes.tla').read()
    return re.findall(r'<<"(\w{3})","(\w+)">>', t)

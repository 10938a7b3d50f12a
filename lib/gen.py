"""Seeded generators: grammars, lexicons, phrases, addresses."""
import os, re, json

IN = [('STOP', -1), ('NUMBER', 0), ('WORD', 1), ('TYPE', 2), ('QUALIF', 3), ('ROAD', 6), ('STOPWORD', 7), ('RR', 8), ('DASH', 9),
      ('CITY', 10), ('PROV', 11), ('NATION', 12), ('AMPERS', 13), ('BOXH', 14), ('ORD', 15), ('UNITH', 16), ('UNITT', 17),
      ('SINGLE', 18), ('BUILDH', 19), ('MILE', 20), ('DOUBLE', 21), ('DIRECT', 22), ('MIXED', 23), ('BUILDT', 24), ('FRACT', 25),
      ('PCT', 26), ('PCH', 27), ('QUINT', 28), ('QUAD', 29), ('PUNCT', 30), ('SPACE', 31), ('PLACEN', 32), ('EMDASH', 33),
      ('SLASH', 34), ('ATSIGN', 35), ('COMMA', 36)]
INNUM = dict(IN)
INN = [n for n, _ in IN]
OUT = ['STOP', 'BLDNG', 'HOUSE', 'PREDIR', 'QUALIF', 'PRETYP', 'STREET', 'SUFTYP', 'SUFDIR', 'RR', 'EXTRA', 'CITY', 'PROV',
       'NATION', 'POSTAL', 'BOXH', 'BOXT', 'UNITH', 'UNITT', 'IGNORE']
ATT = ['DET_PRE', 'DET_SUF', 'ATT_PRE', 'ATT_SUF']


def csort(cs):
    return sorted(cs, key=lambda c: INNUM.get(c, 99))


UNIT = 4096      # scores are given in 1/4096


def score(rng, base):
    """a score near base / 64: most are exactly that, others differ by a little"""
    return base * (UNIT // 64) + rng.choice([0, 0, 0, 0, 0, 1, -1, 2, 3, 17])


# ---- grammars: {name: {'m': [[names]]} | {'r': [{'in','out','s'}]}} --------

def gmr_text(g, order=None, rng=None):
    out = []
    names = order or list(g)
    for n in names:
        out.append('[%s]' % n)
        s = g[n]
        if 'm' in s:
            for a in s['m']:
                out.append(' '.join('@' + x for x in a))
        else:
            for r in s['r']:
                out.append(' '.join(r['in'] + ['->'] + r['out'] + ['->', repr(r['s'] / UNIT)]))
        out.append('')
    return '\n'.join(out) + '\n'


def rnd_rule(rng, classes, outs, maxlen=3, eps=0.03):
    n = 0 if rng.random() < eps else rng.choice([1, 1, 1, 2, 2, 3] + list(range(4, maxlen + 1)))
    n = min(n, maxlen)
    return {'in': [rng.choice(classes) for _ in range(n)], 'out': [rng.choice(outs) for _ in range(n)], 's': score(rng, rng.choice([8, 16, 16, 24, 32, 32, 40, 48, 64, 64, 96]))}


def rnd_grammar(rng, classes, nmeta=3, nrule=3, recursive=True, outs=OUT, eps=0.03, dup=0.1, maxlen=3, names=False):
    metas = ['ADDRESS'] + ['m%d' % i for i in range(rng.randint(0, nmeta))]
    rules = ['r%d' % i for i in range(rng.randint(1, nrule))]
    if names:           # names that begin alike, differ in case, sort on either side of ADDRESS
        pool = ['A', 'AD', 'ADDRESS_', 'ADDRESS1', 'Address', 'address', 'a', 'aa', 'Zz', '_x', '9', '10', 'x1', 'x10', 'X1', 'STREET', 'WORD', 'NUMBER', 'r', 'rr', 'rrr', 'R']
        rng.shuffle(pool)
        metas = ['ADDRESS'] + pool[:len(metas) - 1]; rules = pool[len(metas):len(metas) + len(rules)]
    if rng.random() < 0.05:
        metas, rules = [], ['ADDRESS'] + rules[1:]
    g = {}
    for i, m in enumerate(metas):
        alts = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            pool = rules * 2 + (metas[1:] if recursive and rng.random() < 0.5 else metas[i + 1:])
            if recursive and rng.random() < 0.1:
                pool = pool + metas
            a = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            alts.append(a)
        if rng.random() < dup:
            alts.append(list(rng.choice(alts)))
        g[m] = {'m': alts}
    for r in rules:
        rs = [rnd_rule(rng, classes, outs, maxlen=maxlen, eps=eps) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < dup:
            rs.append(dict(rng.choice(rs)))
        g[r] = {'r': rs}
    return g


def parse_grammar(text):
    """A plain reader for the (well-formed) sample grammars."""
    g, cur = {}, None
    for l in text.split('\n'):
        l = l.strip()
        if not l or l.startswith('#'):
            continue
        m = re.match(r'^\[(.+)\]$', l)
        if m:
            cur = m.group(1)
        elif '@' in l:
            g.setdefault(cur, {'m': []})['m'].append(re.findall(r'@(\w+)', l))
        else:
            p = l.split('->')
            g.setdefault(cur, {'r': []})['r'].append({'in': p[0].split(), 'out': p[1].split(), 'score': float(p[2])})
    return g


def sample_grammars(repo='/repo', named=False):
    """the sample grammars of the repository, their scores moved to the next multiple of 1/4096"""
    out = []
    d = repo + '/data/sample'
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not f.endswith('.gmr'): continue
        try: g = parse_grammar(open(os.path.join(d, f), encoding='utf-8').read())
        except (ValueError, IndexError, UnicodeDecodeError): continue
        for s in g.values():
            for r in s.get('r', []):
                r['s'] = int(round(r.pop('score') * UNIT))
                r['out'] = [c if c in OUT else 'BADTOKEN' for c in r['out']]        # some name a class that does not exist
        if 'ADDRESS' in g and all(x in g for s in g.values() for a in s.get('m', []) for x in a): out.append((f[:-4], g) if named else g)
    return out


def count_derivs(g, phrase, root='ADDRESS', cap=400):
    """Size estimate used to keep generated cases small (not an oracle)."""
    lim, n = len(phrase) + 2, len(phrase)
    cnt, steps = 0, 0
    st = [((root,), 0, 0)]
    while st:
        stack, pos, e = st.pop(); steps += 1
        if cnt > cap or steps > 40 * cap:
            return cap + 1
        if not stack:
            cnt += pos == n
            continue
        if e > lim:
            continue
        s = g.get(stack[0])
        if s is None:
            continue
        if 'm' in s:
            for a in s['m']:
                st.append((tuple(a) + stack[1:], pos, e + 1))
        else:
            for r in s['r']:
                k = len(r['in'])
                if pos + k <= n and all(r['in'][j] in phrase[pos + j] for j in range(k)):
                    st.append((stack[1:], pos + k, e))
    return cnt


def big_grammar(rng):
    """many sections, long rules"""
    g = rnd_grammar(rng, rng.sample(LEXCLS, rng.choice([4, 6, 10])), nmeta=rng.choice([6, 12, 20]), nrule=rng.choice([6, 12]), recursive=rng.random() < 0.3, maxlen=6, names=rng.random() < 0.4)
    if rng.random() < 0.3:
        k = list(g); rng.shuffle(k); g = {n: g[n] for n in k}
    return g


def rnd_phrase(rng, classes, maxlen=5, maxcls=3):
    n = rng.choice([0] + [1, 2, 3, 4, 5][:maxlen] * 3)
    return [csort(set(rng.choice(classes) for _ in range(rng.choice([1, 1, 2, maxcls])))) for _ in range(n)]


def matching_phrase(rng, g, maxlen=6):
    """The classes of a random derivation, each token with extra classes now and then."""
    for _ in range(30):
        out, stack, steps = [], ['ADDRESS'], 0
        while stack and steps < 25 and len(out) <= maxlen:
            steps += 1
            s = g.get(stack.pop(0))
            if not s: break
            if 'm' in s:
                if not s['m']: break
                stack = list(rng.choice(s['m'])) + stack
            else:
                out += rng.choice(s['r'])['in']
        if not stack and len(out) <= maxlen:
            return out
    return None


# ---- lexicons: [{'w': [chars], 's': str, 't': [classes], 'a': [attachments]}] in insertion order

LEXCLS = ['WORD', 'TYPE', 'QUALIF', 'ROAD', 'STOPWORD', 'RR', 'CITY', 'PROV', 'NATION', 'AMPERS', 'BOXH', 'ORD', 'UNITH', 'UNITT',
          'BUILDH', 'MILE', 'DIRECT', 'BUILDT', 'NUMBER', 'DASH', 'PLACEN', 'SINGLE', 'MIXED', 'PUNCT', 'COMMA', 'STOP']

PARTS = ['A', 'B', 'AB', 'BA', 'AAB', 'ST', 'STR', 'STRASSE', 'MT', 'N', 'É', 'ÉA', 'Ñ', 'Ж', 'ДОМ', '中', '中国', 'O', 'DE', 'RUE', 'LA', '1', '12', '1A', 'B2', '4TH',
         '日本', 'Ü', 'ÅS', 'CO', 'PO', 'ß'.upper()]
JOINTS = ['', '', ' ', ' ', '-', '.', "'", '/', '&', '. ', ' - ', ' ° ', ' € ', ' + ']


def chars(s): return list(s)


def rnd_key(rng, rx=0.1):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    k = rng.choice(PARTS)
    for _ in range(n - 1):
        k += rng.choice(JOINTS) + rng.choice(PARTS)
    if rng.random() < 0.12: k += rng.choice(['.', '-', "'", '&', '#', 'º', '°'])
    if rng.random() < rx:
        c = rng.choice('()[]{}+*?^$|\\.~')
        i = rng.randint(0, len(k)); k = k[:i] + c + k[i:]
    if rng.random() < 0.05: k = rng.choice(['-', '.', '#', '&', '@', '/', ',', '--', '—A'][:-1])
    return k


def rnd_entry(rng, key, classes=LEXCLS):
    t = sorted(set(rng.choice(classes) for _ in range(rng.choice([1, 1, 1, 2, 3]))), key=lambda c: INNUM[c])
    s = rng.choice([key, key, rng.choice(PARTS), rng.choice(PARTS) + ' ' + rng.choice(PARTS), ''])
    a = []
    if rng.random() < 0.35:
        a = sorted(set(rng.choice(ATT + ['ATT_PRE', 'ATT_SUF']) for _ in range(rng.choice([1, 1, 2]))))
    return {'w': chars(key), 's': s, 't': t, 'a': a}


def rnd_lexicon(rng, n=None, keys=(), classes=LEXCLS, rx=0.1):
    n = n if n is not None else rng.choice([0, 1, 2, 4, 6, 9, 12])
    ks = list(keys) + [rnd_key(rng, rx) for _ in range(n)]
    # keys that share beginnings
    for k in list(ks):
        if rng.random() < 0.4: ks.append(k + rng.choice(['A', 'B', 'S', '.', ' A', '-A', '1']))
        if rng.random() < 0.25 and len(k) > 1 and k[:-1].strip() == k[:-1]: ks.append(k[:-1])
    out, seen = [], set()
    for k in ks:
        if not k or k.strip() != k or k[0] == '—' or k.upper() != k: continue
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            e = rnd_entry(rng, k, classes)
            kk = json.dumps(e)
            if kk not in seen:
                seen.add(kk); out.append(e)
    rng.shuffle(out)
    return out


def lex_text(lex, locale='en', lang='ENG', name='x'):
    out = ['LEXICON:\t%s\t%s\t%s\t%d' % (name, lang, locale, len(lex))]
    for e in lex:
        out.append('LEXENTRY:\t%s\t%s\t%s\t%s' % (''.join(e['w']), e['s'], ','.join(e['t']), ','.join(e['a'])))
    return '\n'.join(out) + '\n'


NUMS = ['1', '12', '123', '1234', '12345', '123456', '0', '007', '1/2', '12/34', '3.5', '1,5', '1.234,5', '1,2,3', '1/2/3', '٣', '٣٤٥', '1-2', '12-B']
MIX = ['A1', '1A', 'A12', '12A', 'AB1', 'AB12', 'AB12C', 'A1B', '1AB', '1A1', '1A2B', 'ABC12', 'A123', '123A', '123AB', 'É1', '1É', 'Ж2', '中1', 'A1É', '4TH', 'X_Y', '_', '1_']
SEPS = [' ', ' ', ' ', '  ', ', ', ',', '-', ' - ', '.', '. ', '/', '\t', '\n', ' \t ', '#', '&', ' & ', '@', '—', ' — ', '--', "'", '"', ';', '()', '[', '|', '||', '*', '+', '°', '€', '½', 'Ⅷ',
        '\u00a0', '\u2003', '\r\n', '$', '^', '~', '<', '{', '\\', '!?', '\u200b', '\x0b', '\x01', '¿', '、', '。', '\ufffd', '😀', '', '']
WORDS = ['MAIN', 'X', 'XY', 'XYZ', 'ÉCOLE', 'É', 'ÉE', 'ЖЖ', '中文', 'N\u0303', 'Q\u0301', 'A\u0327\u0301', 'ह', 'हि', 'กำ', '𝔸', '𐐀', 'ǅ'.upper(), 'STOP']


def long_word(rng, kind):
    """a word of a length nobody writes down in a test"""
    d = ''.join(rng.choice('0123456789') for _ in range(rng.choice([6, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 21, 24, 33])))
    if kind == 'num': return rng.choice([d, d, d + '/' + d[:3], d[:2] + '/' + d, d + '.5', '1,' + d])
    if kind == 'mix':
        c = rng.choice('ABWNÉЖ中')
        return rng.choice([d + c, c + d, d + c, c + d, d + c + c, c + d + c, c + c + d])
    return ''.join(rng.choice(rng.choice(['AB', 'EÉ', 'ЖД', '中国'])) for _ in range(rng.choice([9, 16, 17, 31, 33, 40])))


def rnd_text(rng, lex, n=None, lower=False):
    n = n if n is not None else rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
    out = []
    keys = [''.join(e['w']) for e in lex]
    att = [''.join(e['w']) for e in lex if 'ATT_PRE' in e['a'] or 'ATT_SUF' in e['a']]
    if rng.random() < 0.2: out.append(rng.choice(SEPS))
    for _ in range(n):
        r = rng.random()
        if keys and r < 0.42:
            w = rng.choice(keys)
            if rng.random() < 0.2: w += rng.choice(['A', '1', 'É', '.', ' '])
            elif rng.random() < 0.15: w = w[:-1]
        elif att and r < 0.55:
            w = rng.choice(att) + rng.choice(WORDS + PARTS + att) + (rng.choice(att) if rng.random() < 0.4 else '')
            if rng.random() < 0.4: w = rng.choice(PARTS) + rng.choice(att)
        elif r < 0.68: w = rng.choice(NUMS) if rng.random() < 0.85 else long_word(rng, 'num')
        elif r < 0.80: w = rng.choice(MIX) if rng.random() < 0.85 else long_word(rng, 'mix')
        elif r < 0.90: w = rng.choice(WORDS) if rng.random() < 0.92 else long_word(rng, 'word')
        else: w = rng.choice(PARTS) + rng.choice(PARTS)
        out.append(w)
        out.append(rng.choice(SEPS))
    if rng.random() < 0.5 and out: out.pop()
    s = ''.join(out)
    if lower:
        s = ''.join(c.lower() if rng.random() < 0.5 and len(c.lower()) == 1 and c.lower().upper() == c else c for c in s)
    return s


def big_lexicon(rng, n):
    """many keys: words of any length over a few letters, with and without joints"""
    al = rng.choice(['AB', 'ABCDE', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'AÉЖ中', 'AB12', "A-'B "])
    out = []
    for k in range(n):
        w = ''.join(rng.choice(al) for _ in range(rng.choice([1, 2, 3, 4, 5, 8, 13, 21]))).strip()
        if rng.random() < 0.2: w = (w + rng.choice(JOINTS) + ''.join(rng.choice(al) for _ in range(rng.choice([1, 3])))).strip()
        w = ' '.join(x for x in w.split(' ') if x)      # the loader collapses runs of blanks
        if not w: continue
        e = rnd_entry(rng, w)
        if e not in out: out.append(e)
    return out


def canon(s):
    """Fixpoint check used by generators only: texts whose canonical form is themselves."""
    import unicodedata
    return unicodedata.normalize('NFC', s).upper()


def grammar_for(rng, phrases, outs=OUT, distract=True, recursive=True):
    """A grammar with derivations of some of the phrases (each a list of class lists)."""
    g = {'ADDRESS': {'m': []}}
    nsec = rng.choice([1, 2, 3, 4])
    rules = {'r%d' % i: [] for i in range(nsec)}
    allc = sorted(set(c for p in phrases for t in p for c in t)) or ['WORD']

    def seg(p):
        out, i = [], 0
        while i < len(p):
            k = min(len(p) - i, rng.choice([1, 1, 2, 3]))
            r = {'in': [rng.choice(p[i + j]) for j in range(k)], 'out': [rng.choice(outs) for _ in range(k)], 's': score(rng, rng.choice([8, 16, 24, 32, 32, 40, 48, 64, 64]))}
            s = rng.choice(list(rules))
            same = [x for x in rules[s] if x['in'] == r['in']]
            if not same or rng.random() < 0.3: rules[s].append(r)
            out.append(s); i += k
        return out
    for p in rng.sample(phrases, min(len(phrases), rng.choice([1, 1, 2, 3]))):
        for _ in range(rng.choice([1, 1, 2])):
            a = seg(p)
            if not a:
                rules['r0'].append({'in': [], 'out': [], 's': 2048}); a = ['r0']
            if len(a) > 1 and rng.random() < 0.3:
                m = 'm%d' % len(g)
                k = rng.randint(1, len(a) - 1)
                g[m] = {'m': [a[:k]]}
                if rng.random() < 0.3: g[m]['m'].append([rng.choice(list(rules))])
                a = [m] + a[k:]
            g['ADDRESS']['m'].append(a)
    if distract:
        for _ in range(rng.choice([0, 1, 2])):
            rules[rng.choice(list(rules))].append(rnd_rule(rng, allc, outs, eps=0))
        if recursive and rng.random() < 0.25: g['ADDRESS']['m'].append(['ADDRESS', rng.choice(list(rules))])
    rng.shuffle(g['ADDRESS']['m'])
    for s, r in rules.items():
        if not r: r.append({'in': ['STOP'], 'out': ['STOP'], 's': 2048})
        rng.shuffle(r)
        g[s] = {'r': r}
    return g

"""C12, C22: lexicon histories, and the trie behind what the tokenizer recognizes."""
import json
import build, tlc, gen, suite
from suite import Item, Bad
from .token import tj, splittable
from .load import ent

POOL = [{'w': ['A'], 's': 'A', 't': ['WORD'], 'a': []}, {'w': ['A'], 's': 'A', 't': ['TYPE'], 'a': []},
        {'w': ['A', 'B'], 's': 'A', 't': ['WORD'], 'a': ['ATT_PRE']}, {'w': ['B'], 's': 'A', 't': ['WORD'], 'a': ['ATT_SUF']},
        {'w': ['A', ' ', 'B'], 's': 'A', 't': ['CITY'], 'a': []}]


def tla_entry(e):
    return '[w |-> %s, s |-> %s, t |-> {%s}, a |-> {%s}]' % (tlc.tla(e['w']), tlc.tla(list(e['s'])), ', '.join(tlc.tla(x) for x in e['t']), ', '.join(tlc.tla(x) for x in e['a']))


def wire(e):
    return {'w': ''.join(e['w']), 's': e['s'], 't': e['t'], 'a': e['a']}


def hist_item(start, ops, keys, probes, texts, see, copy_at=None, env_id='h'):
    """start: entries read from a text (None: an empty lexicon made by the constructor);
    ops: [('ins'|'rem', entry)]; see(n): what to observe after n operations, a set of 'keys','probe','tok';
    copy_at: n -> from then on work on a copy made through the archive"""
    cmds = [{'op': 'lnew', 'id': 'h', 'lex': gen.lex_text(start)}] if start is not None else [{'op': 'lnew', 'id': 'h', 'lex': '', 'empty': True}]
    cid = 'h'
    plan = []

    def observe(n):
        for what in sorted(see(n)):
            if what == 'keys':
                plan.append((len(cmds), n, 'keys', None)); cmds.append({'op': 'lstate', 'id': cid, 'keys': keys})
            elif what == 'probe':
                plan.append((len(cmds), n, 'probe', None)); cmds.append({'op': 'lstate', 'id': cid, 'probe': probes})
            else:
                for t in texts:
                    plan.append((len(cmds), n, 'tok', t)); cmds.append({'op': 'tok', 'id': cid, 'addr': t, 'filter': []})
    observe(0)
    for n, (op, e) in enumerate(ops, 1):
        if copy_at == n:
            cmds.append({'op': 'lcopyvia', 'id': cid, 'to': 'k'}); cid = 'k'
            observe(n - 1)
        cmds.append({'op': 'lins' if op == 'ins' else 'lrem', 'id': cid, 'e': wire(e)})
        observe(n)

    def rec(rs):
        obs = []
        for r in rs:
            if 'exc' in r: raise Bad('exception ' + r['exc'])
        for k, n, what, t in plan:
            r = rs[k]
            if what == 'keys': obs.append({'n': n, 'what': what, 'find': [{'k': list(x), 'es': [ent(e) for e in es]} for x, es in zip(keys, r['find'])]})
            elif what == 'probe': obs.append({'n': n, 'what': what, 'probe': [{'w': list(x), 'r': p[0], 'p': list(p[1]), 's': list(p[2])} for x, p in zip(probes, r['probe'])]})
            else: obs.append({'n': n, 'what': what, 't': list(t), 'toks': [tj(x) for x in r['toks']]})
        return [{'x0': [dict(e, s=list(e['s'])) for e in start or []], 'ops': [{'op': o, 'e': dict(e, s=list(e['s']))} for o, e in ops], 'obs': obs}]
    return Item(cmds, rec)


def model_hists(ctx):
    r = tlc.model('MCLexicon', consts={'Pool': '<<' + ', '.join(tla_entry(e) for e in POOL) + '>>', 'Emit': 'TRUE'}, workers=1, timeout=300)
    ctx.model(r, 'MCLexicon(%d entries)' % len(POOL))
    return r.printed('CASE')


def c12(ctx):
    exe = build.core()
    rng = ctx.rng
    hs = model_hists(ctx)
    items = []
    probes = ['A', 'B', 'AB', 'A B', 'AA', 'BA', 'ABA', 'ABB', 'BB', 'ABAB', 'A A', 'X']
    texts = ['A B', 'ABA', 'AAB', 'A A B']
    edges = [(h, o) for h in hs for o in [0] + [s * (k + 1) for k in range(len(POOL)) for s in (1, -1)]]
    ctx.parts.append('MCLexicon has %d transitions' % len(edges))
    if not ctx.thorough: edges = rng.sample(edges, 900)
    for h, o in edges:
        hist = h + [o, 0]
        ops, asks, n = [], set(), 0
        for x in hist:
            if x == 0: asks.add(n)
            else:
                ops.append(('ins' if x > 0 else 'rem', POOL[abs(x) - 1])); n += 1
        items.append(hist_item(None, ops, ['A', 'B', 'AB', 'A B', 'X'], probes, texts, lambda k, asks=asks, n=n: {'keys', 'probe', 'tok'} if k in asks else ({'keys'} if k == n else set())))
    suite.run(ctx, exe, 'TraceLexicon', items, 'replay of the model: every state, every operation')
    items = []
    for k in range(ctx.n(420, 7000)):
        big = k % 7 == 0          # many entries, long histories
        start = gen.rnd_lexicon(rng, rng.choice([0, 1, 3, 6]), rx=0.1) if not big else [e for e in gen.big_lexicon(rng, rng.choice([20, 40])) if gen.canon(''.join(e['w'])) == ''.join(e['w'])]
        pool = start + gen.rnd_lexicon(rng, rng.choice([1, 2, 4]), [''.join(e['w']) for e in rng.sample(start, min(len(start), 2))], rx=0.1)
        if not pool: continue
        cur, ops = list(start), []
        for _ in range(rng.choice([1, 2, 4, 8, 16] if not big else [20, 40])):
            if cur and rng.random() < 0.45:
                e = rng.choice(cur); ops.append(('rem', e)); cur.remove(e)
            else:
                e = rng.choice(pool); o = rng.choice(['ins', 'ins', 'ins', 'rem']); ops.append((o, e))
                if o == 'ins' and e not in cur: cur.append(e)
                if o == 'rem' and e in cur: cur.remove(e)
        ks = list(dict.fromkeys(''.join(e['w']) for e in pool))
        if len(ks) > 12: ks = rng.sample(ks, 12)
        pr = list(dict.fromkeys(ks + [k + 'A' for k in ks[:4]] + ['A' + k for k in ks[:4]] + [k[:-1] for k in ks if len(k) > 1 and k[:-1].strip()] + [a + b for a in ks[:3] for b in ks[:3]]))[:30]
        pr = [p for p in pr if p.strip() == p and p]
        tx = []
        for _ in range(rng.choice([1, 2])):
            t = gen.canon(gen.rnd_text(rng, pool, n=3))
            if splittable(pool, t) <= 3: tx.append(t)
        asked = set(k for k in range(len(ops) + 1) if rng.random() < (0.1 if big else 0.6)) | {len(ops)}
        items.append(hist_item(start, ops, ks + ['ZZZ'], pr, tx, lambda k, a=asked: {'keys', 'probe', 'tok'} if k in a else set(), rng.randint(1, len(ops)) if rng.random() < 0.2 else None))
    suite.run(ctx, exe, 'TraceLexicon', items, 'generated histories')
    items = []
    for _ in range(ctx.n(2, 10)):
        # very many entries of one key, in and out in different orders
        n = rng.choice([12, 33, 70, 130])
        es = [{'w': ['K'], 's': 'S%d' % i, 't': [rng.choice(gen.LEXCLS)], 'a': [rng.choice(gen.ATT)] if i % 3 == 0 else []} for i in range(n)]
        es += [{'w': list('KÉY'), 's': 'X%d' % i, 't': ['WORD', 'TYPE'][:1 + i % 2], 'a': []} for i in range(n // 3)]
        ops = [('ins', e) for e in es] + [('ins', e) for e in rng.sample(es, 9)] + [('rem', e) for e in rng.sample(es, n // 2)] + [('ins', e) for e in rng.sample(es, 5)] + [(o, e) for e in es for o in ['rem']]
        asked = {1, 5, 9, 17, n, len(es), len(es) + 9, len(es) + 9 + n // 2, len(ops) - 1, len(ops)}
        items.append(hist_item([], ops, ['K', 'KÉY', 'Q'], ['K', 'KÉY', 'KX', 'XK', 'KKÉY', 'Q'], ['K 1', 'XKÉY KÉYX K'], lambda k, a=asked: {'keys', 'probe', 'tok'} if k in a else set()))
        # very many keys
        n = rng.choice([300, 700])
        es, seen = [], set()
        for e in gen.big_lexicon(rng, n):
            k = ''.join(e['w'])
            if k not in seen and gen.canon(k) == k and ' ' not in k: seen.add(k); es.append(e)
        ops = [('ins', e) for e in es] + [('rem', e) for e in rng.sample(es, len(es) // 2)]
        ks = [''.join(e['w']) for e in rng.sample(es, min(len(es), 12))]
        asked = {len(es), len(ops)}
        items.append(hist_item([], ops, ks + ['ZZZ'], [k for k in ks + [k + 'A' for k in ks[:4]] if k], [' '.join(ks[:4])], lambda k, a=asked: {'keys', 'probe', 'tok'} if k in a else set(), len(es) + 3))
        # very long keys and texts
        for n in (64, 128, 257, 600):
            w = ''.join(rng.choice('ABÉ中') for _ in range(n)); E = lambda k, s, a=[]: {'w': list(k), 's': s, 't': ['CITY'], 'a': a}
            es = [E(w, 'L' * n), E(w[:-1] + 'Q', 'É'), E(w + 'Z', 'x', ['ATT_SUF']), E(w, 'M' * n, ['ATT_PRE'])]
            ops = [('ins', e) for e in es] + [('rem', es[2]), ('rem', es[0]), ('ins', es[2]), ('rem', es[3])]
            items.append(hist_item([], ops, [w, w[:-1] + 'Q', w + 'Z'], [w, w + 'Z', w[:-1] + 'Q', w[:-1], w + 'X', 'X' + w + 'Z'], [w + ' ' + w + 'Z', w + 'X'], lambda k: {'keys', 'probe', 'tok'}))
    suite.run(ctx, exe, 'TraceLexicon', items, 'large histories', chunk=4)
    ctx.notes.append('after any insertions and removals the lexicon finds, recognizes, and cuts texts as the list of entries the specification holds')


# ---- the trie ------------------------------------------------------------------

def trie_item(adds, probes, texts, bytes=False):
    cmds = [dict({'op': 'tnew', 'id': 't'}, **({'bytes': 1} if bytes else {}))] + [{'op': 'tadd', 'id': 't', 'w': w} for w in adds] + [{'op': 'tq', 'id': 't', 'probe': probes, 'texts': texts}]

    def rec(rs):
        r = rs[-1]
        for x in rs:
            if 'exc' in x: raise Bad('exception ' + x['exc'])
        return [{'adds': [list(w) for w in adds], 'size': r['size'], 'words': [list(w) for w in r['words']],
                 'q': [{'w': list(w), 'word': o[0], 'pre': o[1], 'st': [list(x) for x in o[2]], 'm': m} for w, o, m in zip(probes, r['q'], r['m'])],
                 'g': [{'t': list(t), 'm': ['none'] if g == '<none>' else list(g)} for t, g in zip(texts, r['g'])]}]
    return Item(cmds, rec, info=adds)


def words_upto(alpha, n):
    out = ['']
    for w in out:
        if len(w) < n: out += [w + a for a in alpha]
    return out[1:]


def c22(ctx):
    exe = build.core()
    rng = ctx.rng
    r = tlc.model('MCTrie', consts={'Alphabet': '{"A", "B"}', 'WordLen': '3', 'MaxWords': str(ctx.n(4, 6))}, timeout=800)
    ctx.model(r, 'MCTrie(words <= 3 over 2 letters, <= %d words)' % ctx.n(4, 6))
    import itertools
    U = words_upto('AB', 3)
    T = [''] + words_upto('AB', 4)
    sets = [list(p) for k in (0, 1, 2) for p in itertools.permutations(U, k)]
    more = [list(p) for p in itertools.permutations(U, 3)]
    sets += more if ctx.thorough else rng.sample(more, 300)
    for _ in range(ctx.n(200, 4000)): sets.append([rng.choice(U) for _ in range(rng.choice([4, 5, 6, 9]))])
    suite.run(ctx, exe, 'TraceTrie', [trie_item(s, T, T[:15]) for s in sets], 'dictionaries of the model, in every order')
    META = list('()[]{}+*?^$|\\.~-/&#\'":,;=!<>@_% ') + ['É', 'é', 'Ж', '中', '国', '𝔸', '😀', 'ß', '\u0301', '\u0308', '\u3000', '\u00a0', '٣', 'a', 'A', 'B', '1', '\x7f', '\u07ff', '\u0800', '\uffff'[:0] or '\ufffd', '\U00010000']
    items = []
    for _ in range(ctx.n(700, 15000)):
        al = rng.sample(META, rng.choice([1, 2, 3, 5])) + rng.choice([[], ['A'], ['A', 'B']])
        ws = [''.join(rng.choice(al) for _ in range(rng.choice([1, 1, 2, 3, 4]))) for _ in range(rng.choice([0, 1, 2, 4, 8, 14, 14, 40]))]
        for w in list(ws):
            if rng.random() < 0.3: ws.append(w + rng.choice(al))
            if rng.random() < 0.2 and len(w) > 1: ws.append(w[:-1])
        pr = list(dict.fromkeys(ws[:10] + [w + rng.choice(al) for w in ws[:5]] + [w[:-1] for w in ws[:5]] + [''.join(rng.choice(al) for _ in range(rng.choice([1, 2, 3]))) for _ in range(6)] + ['', 'A', 'Z', '(', '[']))
        items.append(trie_item(ws, pr, [p + rng.choice(['', 'Z', rng.choice(al)]) for p in pr[:12]]))
    for e in META:          # one character alone and with each other one
        items.append(trie_item([e], [e, '', 'A', e + e, '\\', '\\' + e], [e, e + e, 'A']))
        for f in rng.sample(META, ctx.n(4, len(META))):
            items.append(trie_item([e, f], [e, f, e + f, f + e, '', 'Q', '\\', ','], [e + f, f + e, 'Q']))
            items.append(trie_item(['Q' + e, 'Q' + f, 'Q'], ['Q', 'Q' + e, 'Q' + f, 'QQ', 'Q\\', 'Q,', 'Q' + e + f, ''], ['Q' + e + f, 'Q' + f, 'QZ']))
    suite.run(ctx, exe, 'TraceTrie', items, 'generated dictionaries with characters special to expressions')
    items = []
    for by in (False, True):
        for n in (31, 33, 64, 65, 100, 128, 129, 255, 257, 600):
            al = rng.choice(['AB', 'A(*', 'ABCDEFGHIJ', "A-'."]) if by else rng.choice(['AB', 'AÉ中', 'A(*', 'ЖД'])
            w = ''.join(rng.choice(al) for _ in range(n)); k = rng.randint(1, n - 1)
            ws = [w, w[:k], w[:k] + 'Z', w[:-1] + 'Y', w + 'X']; rng.shuffle(ws); ws = ws[:rng.choice([1, 2, 5])]
            pr = [w, w[:k], w[:-1], w + 'X', w + 'XX', w[:k] + 'Z', w[:-1] + 'Y', w[:k - 1], w[1:]]
            items.append(trie_item(ws, pr, pr + [p + 'Q' for p in pr], by))
        for n in (40, 70, 130, 260, 500):
            # very many words, very many continuations of one beginning
            al = [chr(c) for c in range(33, 127)] if by else [chr(c) for c in range(0x391, 0x3a2)] + [chr(0x4e00 + i) for i in range(200)] + list('ABC(*')
            ws = list(dict.fromkeys(rng.choice(['', 'P', 'PQ']) + ''.join(rng.choice(al) for _ in range(rng.choice([1, 1, 2]))) for _ in range(n)))
            pr = list(dict.fromkeys(rng.sample(ws, min(len(ws), 12)) + [w + 'A' for w in ws[:4]] + ['', 'P', 'PQ', 'PQR']))
            items.append(trie_item(ws, pr, [p + 'Z' for p in pr], by))
    suite.run(ctx, exe, 'TraceTrie', items, 'large dictionaries')
    # the dictionary over bytes, with words of single bytes
    ASCII = [e for e in META if len(e) == 1 and ord(e) < 128]
    items = []
    for _ in range(ctx.n(300, 5000)):
        al = rng.sample(ASCII, rng.choice([1, 2, 3, 5])) + rng.choice([[], ['A'], ['A', 'B']])
        ws = [''.join(rng.choice(al) for _ in range(rng.choice([1, 1, 2, 3, 4]))) for _ in range(rng.choice([0, 1, 2, 4, 8, 14, 14, 40]))]
        for w in list(ws):
            if rng.random() < 0.3: ws.append(w + rng.choice(al))
            if rng.random() < 0.2: ws.append(w[:-1])
        pr = list(dict.fromkeys(ws[:10] + [w + rng.choice(al) for w in ws[:5]] + [w[:-1] for w in ws[:5]] + [''.join(rng.choice(al) for _ in range(rng.choice([1, 2, 3]))) for _ in range(6)] + ['', 'A', 'Z', '(', '[']))
        items.append(trie_item(ws, pr, [p + rng.choice(['', 'Z', rng.choice(al)]) for p in pr[:12]], True))
    for e in ASCII:
        items.append(trie_item([e], [e, '', 'A', e + e, '\\', '\\' + e], [e, e + e, 'A'], True))
        items.append(trie_item([e, 'A' + e, 'A'], [e, '', 'A', e + e, 'A' + e, '\\', 'A\\' + e], [e, e + e, 'A' + e], True))
    suite.run(ctx, exe, 'TraceTrie', items, 'dictionaries over bytes')
    # the way a lexicon uses it
    items = []
    for _ in range(ctx.n(150, 3000)):
        lex = gen.rnd_lexicon(rng, rng.choice([2, 5, 9]), rx=0.8)
        ks = list(dict.fromkeys(''.join(e['w']) for e in lex))[:25]
        if not ks: continue

        items.append(hist_item(lex, [], ks, [k for k in dict.fromkeys(ks + [k + 'A' for k in ks[:5]] + [k[:-1] for k in ks] + [k[1:] for k in ks]) if k and k.strip() == k], [], lambda n: {'probe'}))
    suite.run(ctx, exe, 'TraceLexicon', items, 'keys recognized by a lexicon')
    ctx.notes.append('each case is a dictionary in some order of insertion; membership, beginnings, listings, and the texts the generated expression matches are compared')

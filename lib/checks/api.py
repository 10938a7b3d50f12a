"""C13, C16, C17, C20: the C API as a state machine over calls (Api.tla)."""
import json, os, random, threading, unicodedata
import build, drv, tlc, gen, suite
from . import load
from suite import Item, Bad
from .pipeline import combos
from .token import splittable, samples

FIXTURES = os.path.join(build.VERIF, 'spec', 'kept.json')


def answer(fn, r):
    if 'exc' in r: raise Bad('an exception left %s: %s' % (fn, r['exc']))
    if r.get('errunset') and fn not in ('getl', 'getg'): raise Bad(fn + ' leaves the error unset')
    if r.get('argchanged'): raise Bad(fn + ' writes into its arguments')
    e = r.get('err')
    if fn in ('std', 'stdp'):
        have = r['res'] is not None
        if have and e is not None: raise Bad(fn + ' gives a result and an error')
        if e is not None: return {'k': 'err', 'e': e}
        if not have: return {'k': 'none'}
        return {'k': 'std', 'f': {k: v for k, v in r['res'].items() if v is not None}}
    if fn in ('parse', 'parsep', 'match'):
        have = r['rows'] is not None
        if have and e is not None: raise Bad(fn + ' gives rows and an error')
        if not have and e is None: raise Bad(fn + ' gives neither rows nor an error')
        if e is not None: return {'k': 'err', 'e': e}
        if any(v is None for x in r['rows'] for v in x.values()): raise Bad(fn + ' gives a row with an absent value')
        if fn == 'match': return {'k': 'rows', 'rows': [[x['tokens'], repr(x['score']), repr(x['nrules'])] for x in r['rows']]}
        return {'k': 'rows', 'rows': [[str(x['pat']), str(x['seq']), x['word'], x['inclass'], x['attached']] for x in r['rows']]}
    if fn in ('getl', 'getg'):
        if r['ok'] and e is not None: raise Bad(fn + ' gives a handle and an error')
        if not r['ok'] and e is None: raise Bad(fn + ' gives neither a handle nor an error')
        return {'k': 'ok'} if r['ok'] else {'k': 'err', 'e': e}
    if fn == 'compile':
        if r['ok'] and e is not None: raise Bad('compile gives a text and an error')
        if not r['ok'] and e is None: raise Bad('compile gives neither a text nor an error')
        return {'k': 'text'} if r['ok'] else {'k': 'err', 'e': e}
    return {'k': 'ok' if r.get('ok') else 'bad'}


class World:
    """contents by id"""
    def __init__(self, lex, gmr, kept=None):
        self.lex, self.gmr, self.kept = lex, gmr, kept or {}

    def cmd(self, x):
        c = {'op': x['fn']}
        if 't' in x: c['addr'] = ''.join(x['t'])
        if 'loc' in x: c['loc'] = x['loc']
        if 'f' in x: c['filt'] = x.get('fs', ',').join(x['f'])
        if x['fn'] in ('std', 'match', 'getg'): c['gmr'] = self.gmr[x['g']]
        if x['fn'] in ('std', 'parse', 'match', 'getl', 'compile'):
            fm = x.get('form', 'text')
            if fm == 'text': c['lex'] = self.lex[x['l']]
            elif fm == 'kept': c['lex'] = self.kept[x['l']]
            else:
                c['lexc'] = x['l']
                if fm == 'old': c['ver'] = x['ver']
                if fm == 'cut': c['cut'] = x['cut']
        if x['fn'] == 'compile': c['as'] = x['l']
        if x['fn'] in ('getl', 'getg', 'freel', 'freeg'): c['id'] = x['h']
        if x['fn'] in ('stdp', 'parsep'): c['l'] = x['l']
        if x['fn'] == 'stdp': c['g'] = x['g']
        return c


def strip(x):
    x = {k: v for k, v in x.items() if k not in ('fs', 'ver', 'cut', 'edits')}
    if 'locb' in x:            # as content: two byte strings are the same argument exactly when they are equal
        x['loc'] = x.pop('locb').hex(); x['f'] = [x.pop('filtb').hex()]
    return x


def item(world, calls, fresh=(), absolute=False, words=False, **kw):
    def rec(rs):
        out = []
        for x, r in zip(calls, rs):
            y = dict(strip(x), ans=answer(x['fn'], r))
            if words and x['fn'] in ('parse', 'parsep') and y['ans']['k'] == 'rows': y['words'] = [list(w[2]) for w in y['ans']['rows']]
            out.append(y)
        c = {'fresh': list(fresh), 'calls': out}
        if absolute:
            c['lex'] = {k: [list(l) for l in v.split('\n')] for k, v in world.lex.items()}
            c['gmr'] = {k: [list(l) for l in v.split('\n')] for k, v in world.gmr.items()}
        return [c]
    return Item([world.cmd(x) for x in calls], rec, **kw)


def alone(exe, jobs, workers=8, env=None):
    """each command list in a process of its own; the reply to its last command"""
    out = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lk = threading.Lock()

    def work():
        while True:
            with lk:
                n = next(it, None)
            if n is None: return
            d = drv.Drv(exe, 30, (), env)
            for c in jobs[n]: out[n] = d.call(c)
            d.close()
    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    return out


def freshen(exe, sets):
    """sets: [(world, calls)] -> for each the calls with the answers of a process of their own"""
    jobs = [[w.cmd(x)] for w, cs in sets for x in cs]
    rs = alone(exe, jobs)
    out, n = [], 0
    for w, cs in sets:
        one = []
        for x in cs:
            r = rs[n]; n += 1
            if drv.bad(r): continue           # the history itself shows it
            try: one.append(dict(strip(x), ans=answer(x['fn'], r)))
            except Bad: pass
        out.append(one)
    return out


FILTERS = [[], ['SPACE'], ['SPACE', 'PUNCT'], ['SPACE', 'PUNCT', 'DASH', 'EMDASH'], ['NUMBER'], ['WORD']]


LEXLOCS = ['en', 'en', 'tr', 'de', '', 'az']
CALLLOCS = ['en_US', 'en_US', 'tr_TR', 'de_DE', '', 'tr']
SIMPLE = '[ADDRESS]\n@a\n\n[a]\nWORD -> STREET -> 0.5\nNUMBER -> HOUSE -> 0.5\n'


def worlds(ctx, n, texts_per=3, lower=True, big=0.1, mixed=False):
    """(world, addresses): two lexicons, near twins of each other, and two grammars for the addresses"""
    rng = ctx.rng
    exe = build.core()
    raw = []
    while len(raw) < n:
        large = rng.random() < big
        keys = [' '.join(rng.choice(gen.PARTS) for _ in range(2))] if rng.random() < 0.4 else []
        a = gen.rnd_lexicon(rng, rng.choice([1, 2, 4, 6]), keys, rx=0.05)
        if large: a += [e for e in gen.big_lexicon(rng, rng.choice([20, 50])) if e not in a]
        b = [dict(e) for e in a]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randint(0, 3)
            if k == 0 and b: b.pop(rng.randrange(len(b)))
            elif k == 1 and b: e = rng.choice(b); e['t'] = gen.rnd_entry(rng, 'A')['t']
            elif k == 2 and b: e = rng.choice(b); e['s'] = rng.choice(['ZZ', 'Y', ''])
            else: b += [e for e in gen.rnd_lexicon(rng, 1) if e not in b]
        ts = [gen.rnd_text(rng, rng.choice([a, b]), n=rng.choice([1, 2, 3]), lower=lower) for _ in range(texts_per)]
        if mixed and rng.random() < 0.5:
            # one text in several roles: alone, as a word of a longer key, between words, in another case
            y = rng.choice(['°', '€', '+', '§', '12', '4TH', 'Q', 'ÉA', '1A', '1/2', '&', 'DE'])
            k = ' '.join(rng.sample([y, rng.choice(gen.PARTS), rng.choice(gen.PARTS)], rng.choice([2, 3])))
            if gen.canon(k) == k and y in k.split(' ') and not any(''.join(e['w']) == k for e in a + b):
                e = {'w': list(k), 's': rng.choice([k, 'ZZ']), 't': [rng.choice(gen.LEXCLS)], 'a': []}
                for l in rng.choice([[a], [b], [a, b]]): l.append(e)
                ts = ts[:1] + [k, rng.choice(['%s 7 %s', '%s %s', '7 %s %s']) % (y, rng.choice(gen.PARTS))] if len(ts) > 2 else [k, rng.choice(['A %s 7', '7 %s', 'A%sB']) % y]
        if any('\0' in t or splittable(l, gen.canon(t)) > 2 for t in ts for l in (a, b)): continue
        raw.append((a, b, ts))
    cmds = [[{'op': 'parse', 'addr': t, 'lex': gen.lex_text(l), 'filt': 'SPACE'} for l in (a, b) for t in ts] for a, b, ts in raw]
    out = []
    for (a, b, ts), rs in zip(raw, drv.run_items(exe, cmds)):
        ps, ok = [], True
        if rs is None or any(drv.rows(r) is None for r in rs):        # a broken probe says nothing; the check itself asks the same
            out.append((World({'A': gen.lex_text(a), 'B': gen.lex_text(b)}, {'P': SIMPLE, 'Q': SIMPLE.replace('0.5', '0.25')}), ts))
            continue
        for r in rs:
            q = [[]]
            for x in drv.rows(r):
                while len(q) <= x['pat']: q.append([])
                q[x['pat']].append([c for c in x['inclass'].split(',') if c in gen.INNUM])
            ok = ok and not any(not all(p) or len(p) > 7 or combos(p) > 60 for p in q)
            ps += q
        if not ok or not ps: continue
        gs = [gen.grammar_for(rng, rng.sample(ps, min(len(ps), 3)), recursive=max(map(len, ps)) <= 4) for _ in range(2)]
        if any(gen.count_derivs(g, p, cap=40) > 40 for g in gs for p in ps): continue
        gs = [gen.gmr_text(g) for g in gs]
        if gs[0] == gs[1]: gs[1] = gs[1].replace('0.5', '0.25')
        loc = locb = rng.choice(['en', 'en', 'de', ''])
        if mixed:
            loc, locb = rng.choice(LEXLOCS), rng.choice(LEXLOCS)
            ts = [t + rng.choice(['', ' i', ' izmir', 'ı', ' İ', ' sIrçi', '-ij']) if rng.random() < 0.6 else t for t in ts]
        out.append((World({'A': gen.lex_text(a, loc), 'B': gen.lex_text(b, locb)}, {'P': gs[0], 'Q': gs[1]}), ts))
    return out


def ask(rng, ts, fn, l, g=None, loc='en_US', filters=FILTERS):
    x = {'fn': fn, 'l': l, 't': list(rng.choice(ts)), 'loc': loc, 'f': rng.choice(filters)}
    if g is not None: x['g'] = g
    return x


def c13(ctx):
    exe = build.core()
    rng = ctx.rng
    items = []
    for w, ts in worlds(ctx, ctx.n(260, 4000)):
        calls = []
        for l in rng.sample(['A', 'B'], rng.choice([1, 2])):
            calls.append({'fn': 'compile', 'l': l})
            qs = []
            for _ in range(rng.choice([2, 3, 4])):
                fn = rng.choice(['std', 'parse', 'match'])
                qs.append(ask(rng, ts, fn, l, rng.choice('PQ') if fn != 'parse' else None))
            forms = []
            for q in qs:
                forms += [dict(q, form='text'), dict(q, form='comp')]
                if rng.random() < 0.5: forms.append(dict(q, form='old', ver=rng.choice([0, 1])))
                if rng.random() < 0.7: forms.append(dict(q, form='cut', cut=rng.choice([rng.randint(0, 999), rng.randint(0, 999), rng.randint(800, 999), 0])))
            rng.shuffle(forms)
            forms.sort(key=lambda x: x['form'] == 'cut')
            # what an answer is learned from comes before the rest
            forms.sort(key=lambda x: x['form'] not in ('text', 'comp'))
            calls += forms
            calls.append({'fn': 'getl', 'h': 'c', 'l': l, 'form': 'comp'})
            q = ask(rng, ts, 'parsep', 'c'); calls.append(q)
            if rng.random() < 0.5:
                calls.append({'fn': 'getg', 'h': 'g', 'g': 'P'})
                calls.append(dict(ask(rng, ts, 'stdp', 'c', 'g')))
                calls.append({'fn': 'std', 'l': l, 'g': 'P', 't': calls[-1]['t'], 'loc': 'en_US', 'f': calls[-1]['f'], 'form': 'text'})
            calls.append({'fn': 'parse', 'l': l, 't': q['t'], 'loc': 'en_US', 'f': q['f'], 'form': 'text'})
            if rng.random() < 0.6: calls.append({'fn': 'getl', 'h': 'c', 'l': l, 'form': 'old', 'ver': rng.choice([0, 1])})
        items.append(item(w, calls))
    suite.run(ctx, exe, 'TraceApi', items, 'text and compiled form of the same lexicons')
    # compiled lexicons stored earlier
    kept = json.load(open(FIXTURES))
    items = []
    for k in kept:
        w = World({'A': k['lex']}, {'P': k['gmr']}, {'A': k['comp']})
        calls = []
        for t in k['texts']:
            for fn in ('parse', 'std', 'match'):
                q = {'fn': fn, 'l': 'A', 't': list(t), 'loc': 'en_US', 'f': ['SPACE']}
                if fn != 'parse': q['g'] = 'P'
                calls += [dict(q, form='text'), dict(q, form='kept')]
        items.append(item(w, calls))
    suite.run(ctx, exe, 'TraceApi', items, 'lexicons compiled before')
    ctx.notes.append('each history compiles lexicons and asks the same questions with the text, the compiled text, compiled texts of versions 0 and 1, and compiled texts cut off; the answers to the first two are equal, the third is refused, the fourth is refused or equal')


def mkkept():
    """(by hand) writes the compiled lexicons the check keeps"""
    import vc
    ctx = vc.Ctx('KEPT', 'quick', 5)
    d = drv.Drv(build.core())
    out = []
    for w, ts in worlds(ctx, 60)[:24]:
        r = d.call({'op': 'compile', 'lex': w.lex['A']})
        if r.get('res'): out.append({'lex': w.lex['A'], 'gmr': w.gmr['P'], 'comp': r['res'], 'texts': ts})
    d.close()
    json.dump(out, open(FIXTURES, 'w'), indent=0)
    print(len(out))


def variants(rng, t, loc):
    """other spellings of the same address"""
    out = []
    for _ in range(rng.choice([2, 3, 4])):
        s = unicodedata.normalize(rng.choice(['NFC', 'NFD', 'NFD']), t) if rng.random() < 0.8 else t
        cs = []
        for c in s:
            lo = c.lower()
            if c.upper() == c and rng.random() < 0.6 and len(lo) == 1 and lo.upper() == c:
                if loc.startswith('tr') and c in 'Iİ': lo = {'I': 'ı', 'İ': 'i'}[c]
                cs.append(lo)
            elif len(c.upper()) == 1 and c not in 'iı' and rng.random() < 0.3: cs.append(c.upper())
            else: cs.append(c)
        s = ''.join(cs)
        if rng.random() < 0.3: s = unicodedata.normalize('NFD', s)
        out.append(s)
    return out


ACC = ['É', 'Ü', 'Å', 'Ñ', 'Ç', 'Ố', 'Ǟ', 'Ж', 'Й', 'Ё', 'Ї', 'Ω', 'Ά', 'Ϊ', 'Š', 'Ž', 'Ő', 'Ḍ̇', 'Q̣̇', 'Ộ', 'É̩', '한국', '가', 'ガ', 'パ', 'Ⅻ', 'ß', 'ŉ', 'ﬁ', 'ﬃ', 'ǰ', 'ẞ', 'Æ', 'Ĳ', 'Ⓐ', 'Ａ', 'ⅷ', 'ά', 'ﬀ',
       '\u212b', '\u2126', '\u1e9b\u0323', 'ɐ', 'Ꭰ', 'ა', '𐐨', '𞤢', 'ֆ', 'և']


def c17(ctx):
    exe = build.core()
    rng = ctx.rng
    items = []
    for w, ts in worlds(ctx, ctx.n(420, 6000), 1):
        loc = rng.choice(['en_US', 'en_US', 'de_DE', 'fr_FR', '', 'tr_TR', 'tr'])
        t = ts[0]
        if rng.random() < 0.7:
            i = rng.randint(0, len(t)); t = t[:i] + rng.choice(ACC) + rng.choice(['', 'A', ' ']) + t[i:]
        if loc.startswith('tr') or rng.random() < 0.2: t += rng.choice([' I', 'İ', ' SIRÇI', 'i', 'İZ', ' izmi̇r'[:6]])
        vs = [t] + variants(rng, t, loc)
        calls = []
        f = rng.choice(FILTERS)
        for v in vs:
            for fn in rng.sample(['parse', 'std', 'match'], 2) if v is not t else ['parse', 'std', 'match']:
                x = {'fn': fn, 'l': 'A', 't': list(v), 'loc': loc, 'f': f}
                if fn != 'parse': x['g'] = 'P'
                calls.append(x)
        if rng.random() < 0.4:
            calls += [{'fn': 'getl', 'h': 'c', 'l': 'A'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
            for v in vs[:3]:
                calls += [{'fn': 'stdp', 'l': 'c', 'g': 'g', 't': list(v), 'loc': loc, 'f': f}, {'fn': 'parsep', 'l': 'c', 't': list(v), 'loc': loc, 'f': f}]
        items.append(item(w, calls, words=True, info=t))
    suite.run(ctx, exe, 'TraceApi', items, 'spellings of one address')
    ctx.notes.append('each history asks one question with several spellings (case, composed and decomposed forms, compatibility characters); the specification decides which of them are the same address')
    ctx.assumptions.append('locales: default, de, fr, tr (the rules of lt, el and az_Latn beyond i are not in the specification); Unicode tables of Python')


def model_paths(ctx):
    r = tlc.model('MCApi', consts={'Emit': 'TRUE'}, workers=1, timeout=600)
    ctx.model(r, 'MCApi')
    return r.printed('CASE')


def c20(ctx):
    exe = build.core()
    rng = ctx.rng
    # the transitions of the model, over a few worlds
    ws = worlds(ctx, 60, 2, mixed=True)[:ctx.n(6, 24)]
    paths = model_paths(ctx)
    ctx.parts.append('MCApi has %d transitions' % len(paths))
    plan = []
    for w, ts in ws:
        if len(ts) < 2: continue
        fl, lo = rng.sample(FILTERS, 2), [rng.choice(CALLLOCS) for _ in ts]
        for p in (paths if ctx.thorough else rng.sample(paths, min(len(paths), 300))):
            calls = []
            for s in p:
                x = {'fn': s['fn']}
                if s['fn'] in ('getl', 'freel'): x['h'] = s['h']
                if s['fn'] in ('getg', 'freeg'): x['h'] = s['h']
                if s['fn'] == 'getl': x['l'] = s['c']
                if s['fn'] == 'getg': x['g'] = s['c']
                if s['fn'] in ('stdp', 'parsep'): x['l'] = s['h']
                if s['fn'] == 'stdp': x['g'] = 'G'
                if s['fn'] in ('stdp', 'parsep'): x.update(t=list(ts[s['t'] - 1]), f=fl[s['f'] - 1], loc=lo[s['t'] - 1])
                if s['fn'] in ('std', 'parse', 'match'):
                    x.update(l=s['c'], t=list(ts[s['t'] - 1]), f=fl[s['f'] - 1], loc=lo[s['t'] - 1])
                    if s['fn'] != 'parse': x['g'] = 'P'
                calls.append(x)
            plan.append((w, calls))
    run_histories(ctx, exe, plan, 'replay of the model')
    plan = []
    for w, ts in worlds(ctx, ctx.n(220, 3000), mixed=True):
        lh, gh, calls = {}, {}, []
        fl = rng.sample(FILTERS, 2)
        lo = rng.sample(CALLLOCS, 2)
        for _ in range(rng.choice([4, 8, 12])):
            r = rng.random()
            if r < 0.2 or not lh:
                h = rng.choice(['x', 'y', 'z']); lh[h] = rng.choice('AB'); calls.append({'fn': 'getl', 'h': h, 'l': lh[h]})
            elif r < 0.32 or not gh:
                h = rng.choice(['u', 'v']); gh[h] = rng.choice('PQ'); calls.append({'fn': 'getg', 'h': h, 'g': gh[h]})
            elif r < 0.38 and len(lh) > 1:
                h = rng.choice(sorted(lh)); del lh[h]; calls.append({'fn': 'freel', 'h': h})
            elif r < 0.42 and len(gh) > 1:
                h = rng.choice(sorted(gh)); del gh[h]; calls.append({'fn': 'freeg', 'h': h})
            elif r < 0.68: calls.append(ask(rng, ts, 'stdp', rng.choice(sorted(lh)), rng.choice(sorted(gh)), filters=fl, loc=rng.choice(lo)))
            elif r < 0.88: calls.append(ask(rng, ts, 'parsep', rng.choice(sorted(lh)), filters=fl, loc=rng.choice(lo)))
            else:
                fn = rng.choice(['std', 'match', 'parse']); calls.append(ask(rng, ts, fn, rng.choice('AB'), rng.choice('PQ') if fn != 'parse' else None, filters=fl, loc=rng.choice(lo)))
        plan.append((w, calls))
    run_histories(ctx, exe, plan, 'generated histories')
    ctx.notes.append('each history is a sequence of loads, frees and questions on up to three lexicon and two grammar handles; every answer has to be the one a process of its own gave to the same question')


def run_histories(ctx, exe, plan, name):
    """adds to each history what separate processes answer to its questions"""
    memo, want = {}, []
    per = []
    for w, calls in plan:
        lh, gh, qs = {}, {}, []
        for x in calls:
            if x['fn'] == 'getl': lh[x['h']] = x['l']
            if x['fn'] == 'getg': gh[x['h']] = x['g']
            if x['fn'] in ('stdp', 'parsep', 'std', 'parse', 'match'):
                q = {'fn': {'stdp': 'std', 'parsep': 'parse'}.get(x['fn'], x['fn']), 'l': lh[x['l']] if x['fn'] in ('stdp', 'parsep') else x['l'], 't': x['t'], 'loc': x['loc'], 'f': x['f']}
                if q['fn'] != 'parse': q['g'] = gh[x['g']] if x['fn'] == 'stdp' else x['g']
                k = (id(w), json.dumps(q, sort_keys=True))
                if k not in memo: memo[k] = len(want); want.append((w, [q]))
                if memo[k] not in qs: qs.append(memo[k])
        per.append(qs)
    ans = freshen(exe, want)
    items = [item(w, calls, fresh=[a for k in qs for a in ans[k]]) for (w, calls), qs in zip(plan, per)]
    suite.run(ctx, exe, 'TraceApi', items, name)


# ---- C16: any text for any argument

ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1'}


class HexWorld(World):
    """contents that need not be UTF-8; the addresses, locales and filters of its calls come as bytes (t is their hex form)"""
    def cmd(self, x):
        c = {'op': x['fn']}
        if 't' in x: c['addrx'] = ''.join(x['t'])
        if 'locb' in x: c['locx'] = x['locb'].hex()
        if 'filtb' in x: c['filtx'] = x['filtb'].hex()
        if x['fn'] in ('std', 'match', 'getg'): c['gmrx'] = self.gmr[x['g']].hex()
        if x['fn'] in ('std', 'parse', 'match', 'getl', 'compile'):
            if 'edits' in x: c.update(lexc=x['l'].split('~')[0], edits=x['edits'])
            else: c['lexx'] = self.lex[x['l']].hex()
        if x['fn'] == 'compile': c['as'] = x['l']
        if x['fn'] in ('getl', 'getg', 'freel', 'freeg'): c['id'] = x['h']
        if x['fn'] in ('stdp', 'parsep'): c['l'] = x['l']
        if x['fn'] == 'stdp': c['g'] = x['g']
        return c


WEIRD = [b'\xff', b'\xc3', b'\xc3\x28', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe2\x82', b'\xf0\x9f\x98\x80', b'\xef\xbf\xbf', b'\xef\xbb\xbf', b'\x01', b'\x1b', b'\x7f', b'\xc2\x85',
         b'\xe2\x80\xa8', b'\xe2\x80\xae', b'\xcc\x81', b'\r', b'\n', b'\t', b'\v', b'\\', b'(', b')', b'[', b']', b'{', b'}', b'*', b'+', b'?', b'^', b'$', b'|', b'.', b'->', b'@', b'#', b'"', b"'", b',', b'%s', b'%n', b' ']


def noise(rng, n):
    k = rng.randint(0, 4)
    if k == 0: return bytes(rng.randint(1, 255) for _ in range(n))
    if k == 1: return b''.join(rng.choice(WEIRD) for _ in range(n))
    if k == 2: return (rng.choice(WEIRD) + rng.choice([b'', b'A', b'1', b' '])) * n
    if k == 3: return ''.join(chr(rng.choice([rng.randint(1, 0xd7ff), rng.randint(0xe000, 0x10ffff), rng.randint(33, 126)])) for _ in range(n)).encode()
    return bytes(rng.randint(33, 126) for _ in range(n))


def hurt(rng, b, times=None):
    """a few changes to a text"""
    for _ in range(times if times is not None else rng.choice([0, 1, 1, 2, 3, 8])):
        i = rng.randint(0, len(b)); k = rng.randint(0, 7)
        if k == 0: b = b[:i] + noise(rng, rng.choice([1, 1, 2, 5])) + b[i:]
        elif k == 1: b = b[:i] + b[min(len(b), i + rng.choice([1, 1, 2, 9])):]
        elif k == 2: b = b[:i] + bytes([rng.randint(1, 255)]) + b[i + 1:]
        elif k == 3: j = rng.randint(0, len(b)); i, j = min(i, j), max(i, j); b = b[:j] + b[i:min(j, i + 40)] + b[j:]
        elif k == 4: b = b[:i]
        elif k == 5: b = b[:i] + rng.choice(WEIRD) + b[i:]
        elif k == 6: b = b.replace(rng.choice([b'\n', b'\t', b' ', b'->', b'[', b'@']), rng.choice([b'', b'\n', b'\t', b' ', b'\r\n', b'[']), rng.choice([1, 2, -1]))
        else: b = b[i:]
    return b.replace(b'\0', b'\1')


LOCS = [b'', b'en', b'en_US', b'tr', b'de_DE@collation=phonebook', b'xx', b'POSIX', b'C', b'en_US.UTF-8', b'_', b'@', b'root', b'en-US', b'zh_Hant_TW', b'a' * 200, b'e' * 20000, b'en_' * 300, b'@=;@=;', b'en_US@' + b'x' * 500]
FILTS = [b'', b'SPACE', b'SPACE,PUNCT', b',', b',,,', b'NOPE', b'SPACE,NOPE,,PUNCT', b' SPACE ', b'space', b'SPACE\t', b'WORD,NUMBER,SPACE,PUNCT,MIXED', b'SPACE,' * 500, b'BADTOKEN', b'STOP', b'-1', b'0']


def long_text(rng):
    k, n = rng.randint(0, 9), rng.choice([100, 300, 800])
    return [b'A' * n, b'1' * n, b' ' * n, b'.' * (n // 4), '\u0301'.encode() * n, b'A\xcc\x81' * n, b'1/' * (n // 4), b'1,' * (n // 4), b'\t' * n, '中'.encode() * n][k]


def c16(ctx):
    exe, asan = build.core(), build.core(True)
    rng = ctx.rng
    # texts inside the domain of the load specifications: which are refused, and why, is known
    items = []
    gs, ls = load.gmr_texts(ctx, ctx.n(350, 4000)), load.lex_texts(ctx, ctx.n(350, 4000))
    for g, l in zip(gs, ls):
        w = World({'A': l}, {'P': g})
        calls = []
        for _ in range(rng.choice([2, 3, 4])):
            t = rng.choice(['A', '', ' ', 'A 1', '12 ÉA', '1', 'AB-C', 'x y', '—', '\u0301'])
            fn = rng.choice(['std', 'parse', 'match', 'getl', 'getg', 'compile'])
            if fn in ('std', 'match'): calls.append({'fn': fn, 'g': 'P', 'l': 'A', 't': list(t), 'loc': 'en_US', 'f': rng.choice(FILTERS)})
            elif fn == 'parse': calls.append({'fn': fn, 'l': 'A', 't': list(t), 'loc': 'en_US', 'f': rng.choice(FILTERS)})
            elif fn == 'getg': calls.append({'fn': fn, 'h': 'g', 'g': 'P'})
            elif fn == 'getl': calls.append({'fn': fn, 'h': 'l', 'l': 'A'})
            else: calls.append({'fn': fn, 'l': 'A'})
        ids = [x['fn'] for x in calls]
        if 'getl' in ids and 'getg' in ids: calls.append({'fn': 'stdp', 'l': 'l', 'g': 'g', 't': ['A'], 'loc': 'en_US', 'f': []})
        if 'getl' in ids: calls.append({'fn': 'parsep', 'l': 'l', 't': ['A', ' '], 'loc': 'en_US', 'f': ['SPACE']})
        # a handle that could not be loaded is not used
        items.append(handles_item(w, calls))
    suite.run(ctx, asan, 'TraceApi', items, 'sound and broken lexicons and grammars', env=ASAN)

    # anything else
    base = worlds(ctx, ctx.n(150, 1500), 1)
    raw = []
    for w, ts in base:
        plain = rng.random() < 0.5
        L = {k: (v.encode() if plain else hurt(rng, v.encode())) for k, v in w.lex.items()}
        G = {k: (v.encode() if rng.random() < 0.5 else hurt(rng, v.encode())) for k, v in w.gmr.items()}
        if rng.random() < 0.1: L['A'] = noise(rng, rng.choice([0, 1, 5, 40]))
        if rng.random() < 0.1: G['P'] = noise(rng, rng.choice([0, 1, 5, 40]))
        L = {k: v.replace(b'\0', b'\1') for k, v in L.items()}; G = {k: v.replace(b'\0', b'\1') for k, v in G.items()}
        att = any(b'ATT_' in v for v in L.values())
        T = [hurt(rng, ts[0].encode(), rng.choice([0, 1, 2, 4])), noise(rng, rng.choice([1, 3, 6])), b'', rng.choice(WEIRD)]
        T = [t.replace(b'\0', b'\1')[:24] for t in T]
        if not att: T.append(long_text(rng))
        calls = []
        for _ in range(rng.choice([4, 6, 8])):
            fn = rng.choice(['std', 'parse', 'match', 'getl', 'getg', 'compile', 'std', 'parse', 'match', 'stdp', 'parsep', 'freel', 'freeg'])
            l, g, t = rng.choice('AB'), rng.choice('PQ'), rng.choice(T)
            q = {'t': list(t.hex()), 'locb': rng.choice(LOCS) if rng.random() < 0.5 else b'en_US', 'filtb': rng.choice(FILTS) if rng.random() < 0.7 else hurt(rng, b'SPACE,PUNCT')}
            if rng.random() < 0.05: q['locb'] = noise(rng, 10).replace(b'\0', b'')
            q['filtb'] = q['filtb'].replace(b'\0', b'')
            if fn in ('std', 'match'): calls.append(dict(q, fn=fn, l=l, g=g))
            elif fn == 'parse': calls.append(dict(q, fn=fn, l=l))
            elif fn == 'stdp': calls.append(dict(q, fn=fn, l='l', g='g'))
            elif fn == 'parsep': calls.append(dict(q, fn=fn, l='l'))
            elif fn == 'getl': calls.append({'fn': fn, 'h': 'l', 'l': l})
            elif fn == 'getg': calls.append({'fn': fn, 'h': 'g', 'g': g})
            elif fn == 'compile': calls.append({'fn': fn, 'l': l})
            else: calls.append({'fn': fn, 'h': 'l' if fn == 'freel' else 'g'})
        calls.insert(0, {'fn': 'getl', 'h': 'l', 'l': 'A'}); calls.insert(0, {'fn': 'getg', 'h': 'g', 'g': 'P'})
        calls += [dict(x) for x in calls if x['fn'] in ('std', 'parse', 'match')][:2]        # once more
        raw.append((HexWorld(L, G), calls, T))
    items = [handles_item(w, tame(exe, w, calls, T)) for w, calls, T in raw]
    suite.run(ctx, asan, 'TraceApi', items, 'any bytes', env=ASAN)

    # sound arguments, all functions
    items = []
    for w, ts in base:
        calls = [{'fn': 'getl', 'h': 'l', 'l': 'A'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
        for _ in range(rng.choice([3, 5])):
            fn = rng.choice(['std', 'parse', 'match', 'parse', 'match', 'stdp', 'parsep', 'compile'])
            q = {'fn': fn, 't': list(ts[0]), 'loc': 'en_US', 'f': rng.choice(FILTERS)}
            if fn == 'compile': q = {'fn': fn, 'l': 'A'}
            elif fn in ('stdp', 'parsep'): q['l'] = 'l'
            else: q['l'] = rng.choice('AB')
            if fn in ('std', 'match'): q['g'] = rng.choice('PQ')
            if fn == 'stdp': q['g'] = 'g'
            calls.append(q)
        items.append(handles_item(w, calls + [{'fn': 'freel', 'h': 'l'}, {'fn': 'freeg', 'h': 'g'}]))
    suite.run(ctx, asan, 'TraceApi', items, 'sound arguments', env=ASAN)

    # addresses with many alternatives: several words of the lexicon that are made of several words each
    items = []
    for _ in range(ctx.n(40, 400)):
        ks = [' '.join(rng.choice(gen.PARTS) for _ in range(rng.choice([2, 3, 3, 4, 5]))) for _ in range(rng.choice([1, 2, 3]))]
        l = gen.lex_text([{'w': list(k), 's': k, 't': [rng.choice(gen.LEXCLS)], 'a': []} for k in ks])
        one = sorted(rng.sample(gen.INN[2:30], 2))
        g = '[ADDRESS]\n@r @ADDRESS\n@r\n\n[r]\n' + ''.join('%s -> STREET -> 0.5\n' % c for c in one)
        w = HexWorld({'A': l.encode(), 'B': b'LEXICON:\tx\tENG\ten\t0\n'}, {'P': g.encode(), 'Q': b'[ADDRESS]\nWORD -> STREET -> 1\n'})
        calls = []
        for _ in range(2):
            t = rng.choice([' ', ', ', '  ', ' 1 ']).join(rng.choice(ks) for _ in range(rng.choice([1, 2, 3, 4])))
            for fn in ('parse', 'std', 'match'):
                q = {'fn': fn, 'l': 'A', 't': list(t.encode().hex()), 'locb': b'en_US', 'filtb': b'SPACE'}
                if fn != 'parse': q['g'] = rng.choice('PQ')
                calls.append(q)
        items.append((w, calls, 0))
    items = [handles_item(w, tame(exe, w, calls, T)) for w, calls, T in items]
    suite.run(ctx, asan, 'TraceApi', items, 'many alternatives', env=ASAN)

    # compiled lexicons with bytes changed (the archive may then ask for any amount of memory: no ASan here)
    items = []
    for w, ts in base[:ctx.n(120, 1200)]:
        hw = HexWorld({k: v.encode() for k, v in w.lex.items()}, {k: v.encode() for k, v in w.gmr.items()})
        calls = [{'fn': 'compile', 'l': 'A'}]
        for n in range(rng.choice([2, 3, 4])):
            ed = []
            for _ in range(rng.choice([1, 1, 2])):
                ed.append([rng.choice([rng.randint(0, 1000), rng.randint(0, 100), rng.randint(900, 1000)]), rng.choice([0, 1, 1, 2, 5]), rng.choice([b'', b'0', b'9', b'1', b' ', b'99999', b'-1', b'4294967295', b'99999999999999999999', b'x', b'\xff', b'(', b'LEXICON:', b' 5 ', b'  ']).hex()])
            q = {'t': list(ts[0].encode()[:16].hex()), 'locb': b'en_US', 'filtb': b'SPACE'}
            l = 'A~%d' % n
            fn = rng.choice(['parse', 'getl', 'parse'])
            calls.append(dict(q, fn=fn, l=l, edits=ed) if fn == 'parse' else {'fn': 'getl', 'h': 'l%d' % n, 'l': l, 'edits': ed})
            if fn == 'getl': calls.append(dict(q, fn='parsep', l='l%d' % n))
        items.append(handles_item(hw, calls))
    suite.run(ctx, exe, 'TraceApi', items, 'damaged compiled lexicons')

    # the known limit: every class combination of a phrase is tried
    d = drv.Drv(exe, 8)
    q = {'op': 'match', 'addr': ' '.join('ABCDEFGHIJKLMNOPQRSTUVWXYZABCD'), 'lex': 'LEXICON:\tx\tENG\ten\t0\n', 'gmr': '[ADDRESS]\n@w @ADDRESS\n@w\n\n[w]\nWORD -> STREET -> 1\n', 'filt': 'SPACE'}
    r = d.call(q); d.close()
    if drv.bad(r) or 'exc' in r or (r.get('err') or '').startswith('std::'):
        ctx.violation('an address of 30 tokens with two classes each is not answered in reasonable time and memory', {'cmds': [q]}, key='combinations')
    ctx.notes.append('each history calls the functions of the API with sound, broken and binary texts; every call has to give exactly one of result, error and (standardize) no match, the same for the same arguments, without touching memory outside its own (AddressSanitizer)')
    ctx.assumptions.append('arguments are zero-terminated texts (NULL is outside the contract); memory is not exhausted')


def tame(exe, w, calls, T):
    """leaves only questions whose number of class combinations is small (see the known finding)"""
    need = sorted({(x['l'], ''.join(x['t'])) for x in calls if x['fn'] in ('std', 'match')} | {(l, ''.join(x['t'])) for x in calls if x['fn'] == 'stdp' for l in 'AB'})
    ok = set()
    d = drv.Drv(exe, 6)
    for l, t in need:
        r = d.call({'op': 'parse', 'addrx': t, 'lexx': w.lex[l].hex(), 'filt': ''})
        if drv.rows(r) is None: ok.add((l, t)); continue       # let the check itself see it
        ps = {}
        for x in drv.rows(r): ps.setdefault(x['pat'], []).append(x['inclass'].split(','))
        if len(ps) <= 16 and all(len(p) <= 7 and combos_any(p) <= 64 for p in ps.values()): ok.add((l, t))
    d.close()
    return [x for x in calls if x['fn'] not in ('std', 'match', 'stdp') or (x['fn'] != 'stdp' and (x['l'], ''.join(x['t'])) in ok)
            or (x['fn'] == 'stdp' and all((l, ''.join(x['t'])) in ok for l in 'AB'))]


def combos_any(p):
    n = 1
    for c in p: n *= max(1, len(c))
    return n


def handles_item(w, calls, **kw):
    """calls on a handle that was refused are left out: the driver says 'nohandle'"""
    base = item(w, calls, absolute=not isinstance(w, HexWorld))

    def rec(rs):
        keep = [(x, r) for x, r in zip(calls, rs) if not r.get('nohandle')]
        out = []
        for x, r in keep: out.append(dict(strip(x), ans=answer(x['fn'], r)))
        c = {'fresh': [], 'calls': out}
        if not isinstance(w, HexWorld):
            c['lex'] = {k: [list(l) for l in v.split('\n')] for k, v in w.lex.items()}
            c['gmr'] = {k: [list(l) for l in v.split('\n')] for k, v in w.gmr.items()}
        return [c]
    return Item(base.cmds, rec, **kw)

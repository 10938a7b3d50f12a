"""C23, C24: memory (Ledger.tla): what is given back, and what happens when there is none."""
import build, drv, tlc, gen, suite
from suite import Item, Bad
from . import api, load, pg
from .api import ASAN, HexWorld, World


def led(x, ok, heap):
    """what a call does to the handles"""
    fn = x['fn']
    r = {'fn': fn, 'how': 'none', 'h': [], 'c': '', 'u': '', 'ok': ok, 'heap': heap}
    if fn in ('getl', 'getg'): r.update(how='open', h=[fn[3] + x['h']], c=x['l' if fn == 'getl' else 'g'] + x.get('form', ''))
    elif fn in ('freel', 'freeg'): r.update(how='close', h=[fn[4] + x['h']])
    elif fn == 'parsep': r.update(how='use', h=['l' + x['l']], u='q')
    elif fn == 'stdp': r.update(how='use', h=['l' + x['l'], 'g' + x['g']], u='q')
    return r


def failed(r):
    return r.get('ok', True) is not True or r.get('err') is not None


def opened(calls):
    l, g = [], []
    for x in calls:
        if x['fn'] == 'getl' and x['h'] not in l: l.append(x['h'])
        if x['fn'] == 'getg' and x['h'] not in g: g.append(x['h'])
    return [{'fn': 'freel', 'h': h} for h in l] + [{'fn': 'freeg', 'h': h} for h in g]


HEAP = {'op': 'heap'}


def cycle(world, calls, rounds=3, **kw):
    """the history again and again, every handle closed at its end; the first time only warms up"""
    calls = calls + opened(calls)
    cmds, plan = [], []
    for n in range(rounds):
        for x in calls:
            cmds.append(world.cmd(x)); cmds.append(HEAP); plan.append((x, n > 0))

    def rec(rs):
        out = []
        for (x, w), r, h in zip(plan, rs[::2], rs[1::2]):
            if 'nohandle' in r: continue
            out.append(led(x, not failed(r), h['heap'] if w else -1))
        return [{'calls': out}]
    return Item(cmds, rec, **kw)


def paths(ctx):
    r = tlc.model('MCLedger', consts={'Emit': 'TRUE'}, workers=1)
    ctx.model(r, 'MCLedger')
    return r.printed('CASE')


def replay(rng, p, ts, oom=False):
    """a history of MCLedger over a world; A, B, P are its contents, x is refused"""
    calls = []
    for s in p:
        x = {'fn': s['fn']}
        if s['fn'] in ('std', 'match', 'parse', 'getl', 'compile'): x['l'] = s['l']
        if s['fn'] in ('std', 'match', 'getg'): x['g'] = s['g']
        if s['fn'] in ('getl', 'freel', 'getg', 'freeg'): x['h'] = s['h']
        if s['fn'] in ('stdp', 'parsep'): x['l'] = s['h']
        if s['fn'] == 'stdp': x['g'] = 'G'
        if s['fn'] in ('std', 'match', 'parse', 'stdp', 'parsep'):
            t = rng.choice(ts) if s['k'] == 'ok' else '' if s['k'] == 'none' else rng.choice(ts)
            loc = 'en_US' if s['k'] != 'err' or oom else rng.choice(['e' * 20000, 'x' * 9000])
            x.update(t=list(t), f=rng.choice(api.FILTERS), loc=loc)
        if oom and s['k'] == 'err' and 'x' not in (s['l'], s['g']): x['short'] = True
        calls.append(x)
    return calls


REFUSED_L = ['', 'junk', 'LEXENTRY:\tA\n', 'LEXICON:\tx\tENG\ten\t0\nLEXENTRY:\tA\tB\tNOPE\tDETACH\n', 'LEXICON:\tx\tENG\ten\t0\nLEXENTRY:\tST\tS\tTYPE\tDETACH\nnonsense\n', 'LEXICON:\tx\tXXX\ten\t0\n']
REFUSED_G = ['', '[ADDRESS]\nWORD -> STREET\n', '[X]\nWORD -> STREET -> 0.5\n', '[ADDRESS]\n@NOPE\n', '[ADDRESS]\n@a\n[a]\nWORD -> STREET -> 0.5\n[a]\nWORD -> CITY -> 0.5\n', '[ADDRESS]\n@a\n[a]\nWORD -> STREET -> 0.5\n@b\n']


def with_refused(rng, w):
    w.lex['x'] = rng.choice(REFUSED_L); w.gmr['x'] = rng.choice(REFUSED_G)
    return w


def byte_world(rng, w, ts):
    """a world of bytes, some of them damaged, and calls on it"""
    L = {k: api.hurt(rng, v.encode()) if rng.random() < 0.5 else v.encode() for k, v in w.lex.items()}
    G = {k: api.hurt(rng, v.encode()) if rng.random() < 0.5 else v.encode() for k, v in w.gmr.items()}
    T = [api.hurt(rng, ts[0].encode(), rng.choice([0, 1, 2])), api.noise(rng, rng.choice([1, 3])), b'', rng.choice(api.WEIRD)]
    T = [t.replace(b'\0', b'\1')[:20] for t in T]
    hw = HexWorld(L, G)
    calls = [{'fn': 'getl', 'h': 'l', 'l': 'A'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
    for _ in range(rng.choice([4, 7])):
        fn = rng.choice(['std', 'parse', 'match', 'getl', 'getg', 'compile', 'stdp', 'parsep', 'freel', 'freeg'])
        q = {'t': list(rng.choice(T).hex()), 'locb': rng.choice(api.LOCS) if rng.random() < 0.5 else b'en_US', 'filtb': (rng.choice(api.FILTS) if rng.random() < 0.7 else api.hurt(rng, b'SPACE,PUNCT')).replace(b'\0', b'')}
        l, g = rng.choice('AB'), rng.choice('PQ')
        if fn in ('std', 'match'): calls.append(dict(q, fn=fn, l=l, g=g))
        elif fn == 'parse': calls.append(dict(q, fn=fn, l=l))
        elif fn == 'stdp': calls.append(dict(q, fn=fn, l='l', g='g'))
        elif fn == 'parsep': calls.append(dict(q, fn=fn, l='l'))
        elif fn == 'getl': calls.append({'fn': fn, 'h': rng.choice('lm'), 'l': l})
        elif fn == 'getg': calls.append({'fn': fn, 'h': 'g', 'g': g})
        elif fn == 'compile': calls.append({'fn': fn, 'l': l})
        else: calls.append({'fn': fn, 'h': 'l' if fn == 'freel' else 'g'})
    return hw, calls, T


# ---- the classes below the API

def objects(ctx, n):
    """histories over lexicon, grammar and trie objects and the plain functions: (command, how, handle, content, use)"""
    rng = ctx.rng
    out = []
    for w, ts in api.worlds(ctx, n, 2):
        steps, live, k = [], {}, 0
        for _ in range(rng.choice([5, 8, 12])):
            r = rng.random()
            if r < 0.25 or not live:
                t = rng.choice(['L', 'L', 'G', 'T']); h = t + str(rng.randint(0, 1)); k += 1
                if t == 'L': steps.append(({'op': 'lnew', 'id': h, 'lex': w.lex[rng.choice('AB')]}, 'open', h, k, ''))
                elif t == 'G': steps.append(({'op': 'gnew', 'id': h, 'gmr': w.gmr[rng.choice('PQ')]}, 'open', h, k, ''))
                else: steps.append(({'op': 'tnew', 'id': h}, 'open', h, k, ''))
                live[h] = t
                continue
            if r < 0.35:
                h = rng.choice(sorted(live)); t = live.pop(h)
                steps.append(({'op': {'L': 'ldel', 'G': 'gdel', 'T': 'tdel'}[t], 'id': h}, 'close', h, '', '')); continue
            if r < 0.45:
                kk = rng.choice(['gload', 'greload', 'lload', 'leline', 'rule', 'norm', 'unaccent', 'md5', 'conv', 'enum'])
                t = rng.choice(ts)
                c = {'op': kk}
                if kk in ('gload', 'greload'): c['gmr'] = rng.choice([w.gmr['P'], rng.choice(REFUSED_G)])
                elif kk == 'lload': c.update(lex=rng.choice([w.lex['A'], rng.choice(REFUSED_L)]), via=rng.choice(['', 'text', 'file']), keys=['A'])
                elif kk == 'leline': c['line'] = rng.choice(['LEXENTRY:\tST\tSTREET\tTYPE\tATT_SUF', 'A\tB', '', 'ST\tSTREET AVENUE OF SOMETHING\tTYPE,WORD\tDET_PRE,ATT_SUF'])
                elif kk == 'rule': c['line'] = rng.choice(['WORD -> STREET -> 0.5', 'WORD', '-> ->', 'WORD TYPE -> STREET SUFTYP -> 0.25', ''])
                elif kk in ('norm', 'unaccent', 'md5'): c['text'] = t * rng.choice([1, 3])
                elif kk == 'conv': c.update(names=[rng.choice(['WORD', 'STREET', 'NOPE', 'ATT_SUF,DET_PRE', '', 'ENG'])], nums=[rng.randint(-1, 60)])
                else: c['toks'] = [['A', ['WORD', 'TYPE']], ['1', ['NUMBER']]]
                steps.append((c, 'none', '', '', '')); continue
            h = rng.choice(sorted(live)); t = live[h]
            if t == 'L':
                if rng.random() < 0.5:
                    k += 1
                    e = dict(gen.rnd_entry(rng, rng.choice(gen.PARTS)))
                    e = {'w': ''.join(e['w']), 's': e['s'], 't': e['t'], 'a': e.get('a', [])}
                    steps.append(({'op': rng.choice(['lins', 'lins', 'lrem']), 'id': h, 'e': e}, 'edit', h, k, ''))
                else:
                    c = rng.choice([{'op': 'lstate', 'keys': ['A', 'ST'], 'probe': ['A', 'ST', 'XA']}, {'op': 'ldump'}, {'op': 'tok', 'filter': ['SPACE'], 'addr': rng.choice(ts)},
                                    {'op': 'classify', 'text': rng.choice(['A', '12', 'XYZ'])}, {'op': 'split', 'text': rng.choice(['XST', 'A'])}, {'op': 'stdz', 'tok': ['A', ['WORD']]}])
                    steps.append((dict(c, id=h), 'use', h, '', c['op']))
            elif t == 'G':
                steps.append(({'op': 'search', 'id': h, 'toks': [[x, rng.sample(['WORD', 'TYPE', 'NUMBER'], rng.choice([1, 2]))] for x in 'ABC'[:rng.randint(0, 3)]], 'best': 1}, 'use', h, '', ''))
            elif rng.random() < 0.6:
                k += 1
                steps.append(({'op': 'tadd', 'id': h, 'w': rng.choice(['A', 'AB', 'ABC', 'É', 'ÉA', 'B C', 'A.'])}, 'edit', h, k, ''))
            else: steps.append(({'op': 'tq', 'id': h, 'probe': ['A', 'AB', 'Z', '']}, 'use', h, '', 'q'))
        for h in sorted(live): steps.append(({'op': {'L': 'ldel', 'G': 'gdel', 'T': 'tdel'}[live[h]], 'id': h}, 'close', h, '', ''))
        out.append(steps)
    return out


def object_item(steps, rounds=3):
    cmds, plan = [], []
    for n in range(rounds):
        for s in steps: cmds += [s[0], HEAP]; plan.append((s, n > 0))

    def rec(rs):
        out = []
        for ((c, how, h, k, u), w), r, hp in zip(plan, rs[::2], rs[1::2]):
            ok = 'exc' not in r
            if how in ('open', 'edit') and not ok: how = 'none'      # the driver keeps what it had
            out.append({'fn': c['op'], 'how': how, 'h': [h] if h else [], 'c': str(k), 'u': u, 'ok': True, 'heap': hp['heap'] if w else -1})
        return [{'calls': out}]
    return Item(cmds, rec)


# ---- the SQL functions

def sql_items(ctx, n):
    fns = pg.declared()
    rng = ctx.rng
    sc = pg.scans(ctx, fns, n)
    flat = {fn: [s for k in sorted(v) for s in v[k]] for fn, v in sc.items()}
    failing = [s for s in flat['as_standardize'] + flat['as_compile_lexicon'] if s.fails]
    quiet = {fn: [s for s in v if not s.fails] for fn, v in flat.items()}
    names = sorted(fns)
    items = []
    # statements that come and go; scans are read to their end or abandoned; some calls fail
    for n in range(ctx.n(90, 700)):
        sites = {'a': 'as_parse', 'b': 'as_match', 'c': 'as_standardize', 'd': 'as_compile_lexicon'}
        body = []
        for _ in range(rng.choice([2, 4, 7])):
            s = rng.choice('aabbcd')
            x = rng.choice(failing) if failing and s in 'cd' and rng.random() < 0.3 else rng.choice(flat[sites[s]])
            s = {'as_standardize': 'c', 'as_compile_lexicon': 'd'}.get(x.fn, s)
            if s in 'cd': body.append(pg.call_cmd(fns, s, x.fn, x.vals, n % 2))
            else:
                full = rng.random() < 0.5
                k = len(x.lib) + 1 if full else rng.randint(1, len(x.lib) + 1)
                body += [pg.call_cmd(fns, s, x.fn, x.vals, n % 2)] * k
                if k <= len(x.lib) and rng.random() < 0.6: body.append({'op': 'stop', 'site': s})
        cmds, plan = [], []
        for rnd in range(4):
            cmds += [{'op': 'begin', 'st': 'S'}] + [pg.site_cmd(fns, s, 'S', f) for s, f in sorted(sites.items())] + body + [{'op': 'end', 'st': 'S'}, {'op': 'mem'}]
        per = len(cmds) // 4

        def rec(rs, per=per):
            return [{'calls': [{'fn': 'a statement', 'how': 'none', 'h': [], 'c': '', 'u': '', 'ok': True, 'heap': r['heap'] if k else -1} for k, r in enumerate(rs[per - 1::per])]}]
        items.append(Item(cmds, rec))
    # one statement that goes on: calls that are complete leave nothing behind
    for n in range(ctx.n(60, 500)):
        sites = {'a': 'as_parse', 'b': 'as_match', 'c': 'as_standardize', 'd': 'as_compile_lexicon'}
        one = rng.choice(quiet['as_standardize']) if quiet['as_standardize'] else None
        seq = []
        for _ in range(rng.choice([2, 3, 5])):
            s = rng.choice('aabbcd')
            x = one if s == 'c' else rng.choice(quiet[sites[s]]) if quiet[sites[s]] else None
            if x is not None: seq.append((s, x))
        cmds = [{'op': 'begin', 'st': 'S'}] + [pg.site_cmd(fns, s, 'S', f) for s, f in sorted(sites.items())]
        plan = [None] * len(cmds)
        plan[0] = ('begin', 'open', '', False)
        for rnd in range(4):
            for s, x in seq:
                k = 1 if s in 'cd' else len(x.lib) + 1
                cmds += [pg.call_cmd(fns, s, x.fn, x.vals, n % 2)] * k + [{'op': 'mem'}]
                plan += [None] * k + [(x.fn, 'use', s, rnd > 0)]
        cmds.append({'op': 'end', 'st': 'S'}); plan.append(None)

        def rec(rs, plan=plan):
            return [{'calls': [{'fn': p[0], 'how': p[1], 'h': ['S'], 'c': '', 'u': p[2], 'ok': True, 'heap': r['heap'] if p[3] else -1} for p, r in zip(plan, rs) if p]}]
        items.append(Item(cmds, rec))
    return items


def c23(ctx):
    asan = build.core(True)
    rng = ctx.rng
    ps = paths(ctx)
    ws = [(with_refused(rng, w), ts) for w, ts in api.worlds(ctx, ctx.n(60, 200), 2)]
    items = []
    for p in (ps if ctx.thorough else rng.sample(ps, min(len(ps), 420))):
        w, ts = rng.choice(ws)
        items.append(cycle(w, replay(rng, p, ts)))
    suite.run(ctx, asan, 'TraceLedger', items, 'histories of the model', env=ASAN, chunk=8)
    raw = []
    for w, ts in api.worlds(ctx, ctx.n(90, 900), 1): raw.append(byte_world(rng, w, ts))
    plain = build.core()
    items = [cycle(hw, api.tame(plain, hw, calls, T)) for hw, calls, T in raw]
    suite.run(ctx, asan, 'TraceLedger', items, 'sound, broken and binary texts', env=ASAN, chunk=4)
    items = []
    for w, ts in api.worlds(ctx, ctx.n(60, 600), 2):
        calls = [{'fn': 'compile', 'l': 'A'}, {'fn': 'getl', 'h': 'c', 'l': 'A', 'form': 'comp'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
        for _ in range(rng.choice([3, 6])):
            fn = rng.choice(['std', 'parse', 'match', 'getl', 'stdp', 'parsep'])
            x = {'fn': fn, 'h': 'd', 'l': 'A'} if fn == 'getl' else api.ask(rng, ts, fn, rng.choice('cd') if fn[-1] == 'p' else 'A', 'g' if fn == 'stdp' else 'P' if fn != 'parse' and fn != 'parsep' else None)
            if fn[-1] != 'p':
                x['form'] = rng.choice(['comp', 'comp', 'old', 'cut', 'text'])
                if x['form'] == 'old': x['ver'] = rng.choice([0, 1])
                if x['form'] == 'cut': x['cut'] = rng.randint(0, 999)
            calls.append(x)
        items.append(cycle(w, calls, rng.choice([3, 3, 8])))
    suite.run(ctx, asan, 'TraceLedger', items, 'compiled lexicons, whole, old and cut off', env=ASAN, chunk=4)
    suite.run(ctx, asan, 'TraceLedger', [object_item(s) for s in objects(ctx, ctx.n(110, 1200))], 'lexicon, grammar and trie objects', env=ASAN, chunk=8)
    suite.run(ctx, build.pg(True), 'TraceLedger', sql_items(ctx, ctx.n(50, 300)), 'statements', env=ASAN, chunk=8, limit=60)
    ctx.notes.append('each history runs several times in one process, all handles closed at its end; after the first time the bytes held by the process (the allocator of AddressSanitizer counts them) have to be a function of the open handles, their contents and their uses')
    ctx.assumptions.append('what is taken once and for all (tables of ICU, of the locales) is taken when the history runs first; PostgreSQL is represented by harness/pgstub.c')


# ---- C24: memory runs out

def places(rng, n):
    out = []
    for _ in range(n):
        x = rng.choice([{'oom': rng.randint(0, 12)}, {'oom': rng.randint(0, 150)}, {'oompart': rng.randint(0, 999)}, {'oompart': rng.randint(0, 999)}, {'oomback': rng.randint(0, 12)}])
        if rng.random() < 0.4: x = dict(x, oomall=1)
        out.append(x)
    return out


def exhaust_item(world, calls, **kw):
    """calls: (call, where memory runs out or None, whether the memory held is looked at)"""
    cmds = []
    for x, o, w in calls: cmds += [dict(world.cmd(x), **(o or {})), HEAP]

    def rec(rs):
        out = []
        for (x, o, w), r, h in zip(calls, rs[::2], rs[1::2]):
            if 'nohandle' in r: continue
            y = dict(api.strip(x), ans=api.answer(x['fn'], r), led=led(x, not failed(r), h['heap'] if w else -1))
            if o and r.get('hit'): y['oom'] = True
            out.append(y)
        return [{'fresh': [], 'calls': out}]
    return Item(cmds, rec, **kw)


def sweep_item(world, held, x, probe, rng_from, most, step, everything):
    """the call x at every step-th allocation from rng_from on, on open handles"""
    base = [(y, dict(world.cmd(y))) for y in held]
    close = {'fn': 'free' + x['fn'][3], 'h': x['h']} if x['fn'] in ('getl', 'getg') else None
    seq = held + [x] + ([dict(probe, l=x['h'])] if x['fn'] == 'getl' else []) + ([close] if close else [])
    seq += [x] + ([close] if close else [])
    sw = {'op': 'sweep', 'of': world.cmd(x), 'from': rng_from, 'step': step, 'most': most}
    if everything: sw['all'] = 1
    if x['fn'] == 'getl': sw['then'] = world.cmd(dict(probe, l=x['h']))
    after = [probe, x] + ([close] if close else [])
    cmds = [world.cmd(y) for y in seq] + [sw] + [world.cmd(y) for y in after]

    def one(y, r, oom=False, at=None):
        z = dict(api.strip(y), ans=api.answer(y['fn'], r), led=led(y, not failed(r), -1))
        if oom: z['oom'] = True
        return z

    def rec(rs):
        if 'seen' not in rs[len(seq)]: raise Bad('no answer: ' + str(rs[len(seq)])[:200])
        out = [one(y, r) for y, r in zip(seq, rs)]
        for s in rs[len(seq)]['seen']:
            if s['bytes']: raise Bad('%s: memory runs out at allocation %d: %d bytes are not given back' % (x['fn'], s['at'], s['bytes']))
            out.append(one(x, s['reply'], True))
            if close and s['reply'].get('ok'):
                if 'then' in s: out.append(one(dict(probe, l=x['h']), s['then']))
                out.append(one(close, {'ok': True, 'err': None}))
        out += [one(y, r) for y, r in zip(after, rs[len(seq) + 1:])]
        return [{'fresh': [], 'calls': out}]
    return Item(cmds, rec)


def sweeps(ctx):
    rng = ctx.rng
    items = []
    for w, ts in tidy(ctx, ctx.n(14, 90)):
        held = [{'fn': 'compile', 'l': 'A'}, {'fn': 'getl', 'h': 'l', 'l': 'A'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
        probe = {'fn': 'parsep', 'l': 'l', 't': list(ts[0]), 'loc': 'en_US', 'f': ['SPACE']}
        kinds = ['parsep', 'stdp', rng.choice(['std', 'parse', 'match', 'match']), 'getl', 'getg', 'compile']
        for fn in kinds:
            if fn == 'compile': x = {'fn': fn, 'l': 'A'}
            elif fn == 'getl': x = {'fn': fn, 'l': rng.choice('AB'), 'h': 't'}
            elif fn == 'getg': x = {'fn': fn, 'g': rng.choice('PQ'), 'h': 't'}
            elif fn == 'stdp': x = api.ask(rng, ts[:1], fn, 'l', 'g')
            elif fn == 'parsep': x = dict(probe)
            else: x = api.ask(rng, ts[:1], fn, 'A', 'P' if fn != 'parse' else None)
            if fn in ('getl', 'std', 'parse', 'match') and x['l'] == 'A': x['form'] = rng.choice(['text', 'comp'])
            if fn == 'compile' or x['fn'][:3] == 'get':
                items.append(sweep_item(w, held, x, probe, 0, 3000, 1, False))
                items.append(sweep_item(w, held, x, probe, rng.randint(0, 3), 500, rng.choice([3, 5]), True))
            else:
                for a in range(0, 7000, 1000): items.append(sweep_item(w, held, x, probe, a, 1000 if fn == 'parsep' else 200, 1 if fn == 'parsep' else 5, False))
                items.append(sweep_item(w, held, x, probe, rng.randint(0, 60), 150, 41, True))
    rng.shuffle(items)
    return items


def tidy(ctx, n, long=False):
    """small worlds with attached words and a short address that splits at them"""
    rng = ctx.rng
    out = []
    while len(out) < n:
        pre, suf = rng.choice(['SAINTE', 'ÉA', 'OLD', 'NEUE']), rng.choice(['STRASSE', 'WEG', 'ÉÉ'])
        mid = rng.choice(['XY', 'CATHERINE', 'ÄQ'])
        if long: pre, suf = rng.choice([(pre + 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', suf), (pre, 'ÉBCDEFGHIJKLMNOPQRSTUVWXYZÜÜ' + suf)])
        ea = lambda w, s, c, a: 'LEXENTRY:\t%s\t%s\t%s\t%s' % (w, s, c, a)
        es = [ea(pre, 'P1', 'TYPE', 'ATT_PRE,DET_PRE'), ea(suf, 'S1', 'TYPE', 'ATT_SUF,DET_SUF')]
        if rng.random() < 0.6: es.append(ea('RR SS', 'R', 'TYPE,RR', 'DETACH'))
        head = 'LEXICON:\tx\tENG\t%s\t0\n' % rng.choice(['en', '', 'de'])
        la, lb = head + '\n'.join(es), head + '\n'.join(es[:-1] + [ea('Q', 'Q', 'WORD', 'DETACH')])
        t = rng.choice([pre + mid, mid + suf, pre + mid + suf, '12W', 'RR SS', pre + mid + ' 7B', mid + '-' + suf])
        g = '[ADDRESS]\n@a\n@a @b\n\n[a]\nWORD -> STREET -> 0.5\nTYPE -> SUFTYP -> 0.4\nNUMBER -> HOUSE -> 0.9\nTYPE WORD -> PRETYP STREET -> 0.7\n\n[b]\nWORD -> STREET -> 0.6\nTYPE -> SUFTYP -> 0.3\nWORD TYPE -> STREET SUFTYP -> 0.8\n'
        out.append((World({'A': la, 'B': lb}, {'P': g, 'Q': g.replace('0.5', '0.25')}), [t]))
    return out


def deep_sweeps(ctx):
    """the same below operator new: every allocation of the C library, ICU's and strdup's among them"""
    rng = ctx.rng
    items = []
    for w, ts in tidy(ctx, ctx.n(10, 60), True):
        held = [{'fn': 'compile', 'l': 'A'}, {'fn': 'getl', 'h': 'l', 'l': 'A'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
        probe = {'fn': 'parsep', 'l': 'l', 't': list(ts[0]), 'loc': 'en_US', 'f': ['SPACE']}
        for fn in ['getl', 'getg', 'compile', 'parsep', 'stdp', rng.choice(['std', 'parse', 'match']), 'match']:
            if fn == 'compile': x = {'fn': fn, 'l': 'A'}
            elif fn == 'getl': x = {'fn': fn, 'l': rng.choice('AB'), 'h': 't'}
            elif fn == 'getg': x = {'fn': fn, 'g': rng.choice('PQ'), 'h': 't'}
            elif fn == 'stdp': x = api.ask(rng, ts[:1], fn, 'l', 'g')
            elif fn == 'parsep': x = dict(probe)
            else: x = api.ask(rng, ts[:1], fn, 'A', 'P' if fn != 'parse' else None)
            if fn in ('getl', 'std', 'parse', 'match') and x['l'] == 'A': x['form'] = rng.choice(['text', 'comp'])
            if fn[:3] == 'get' or fn == 'compile': items.append(sweep_item(w, held, x, probe, 0, 3000, 1, False))
            else:
                # the first places one by one (the texts of the call), then with gaps, and the last ones (the answer) one by one
                items.append(sweep_item(w, held, x, probe, 0, ctx.n(160, 800), 1, False))
                items.append(sweep_item(w, held, x, probe, rng.randint(160, 190), 400, rng.choice([29, 37]), False))
                items.append(sweep_item(w, held, x, probe, -ctx.n(160, 500), 1000, 1, False))
    rng.shuffle(items)
    return items


def c24(ctx):
    asan = build.core(True)
    rng = ctx.rng
    ps = [p for p in paths(ctx) if any(s['k'] == 'err' and 'x' not in (s['l'], s['g']) for s in p)]
    ws = [(with_refused(rng, w), ts) for w, ts in api.worlds(ctx, ctx.n(60, 250), 2)]
    items = []
    for p in (ps if ctx.thorough else rng.sample(ps, min(len(ps), 260))):
        w, ts = rng.choice(ws)
        calls = replay(rng, p, ts, True)
        seq = []
        # as if memory sufficed; then with the failures of the model, then once more without
        for rnd in range(2):
            for x in calls + opened(calls): seq.append(({k: v for k, v in x.items() if k != 'short'}, None, rnd > 0))
        for rnd in range(2):
            for x in calls:
                y = {k: v for k, v in x.items() if k != 'short'}
                if x.get('short'):
                    for o in places(rng, 6):
                        if y['fn'] == 'getl' and rng.random() < 0.5: o = {'oom': rng.randint(0, 60)}
                        seq.append((y, o, True))
                        if y['fn'] in ('getl', 'getg'): seq.append(({'fn': 'free' + y['fn'][3], 'h': y['h']}, None, True))
                else: seq.append((y, None, True))
            seq += [(x, None, True) for x in opened(calls)]
        for x in calls + opened(calls): seq.append(({k: v for k, v in x.items() if k != 'short'}, None, True))
        items.append(exhaust_item(w, seq))
    suite.run(ctx, asan, 'TraceExhaust', items, 'failures of the model', env=ASAN, chunk=4, limit=30)
    # every kind of call, each at many places
    items = []
    for w, ts in api.worlds(ctx, ctx.n(150, 1500), 2):
        seq = [({'fn': 'compile', 'l': l}, None, False) for l in 'AB']
        held = [{'fn': 'getl', 'h': 'l', 'l': 'A'}, {'fn': 'getg', 'h': 'g', 'g': 'P'}]
        seq += [(x, None, False) for x in held]
        qs = []
        for _ in range(rng.choice([1, 2])):
            fn = rng.choice(['std', 'parse', 'match', 'stdp', 'parsep', 'compile', 'getl', 'getg'])
            if fn == 'compile': x = {'fn': fn, 'l': rng.choice('AB')}
            elif fn == 'getl': x = {'fn': fn, 'l': rng.choice('AB'), 'h': 't'}
            elif fn == 'getg': x = {'fn': fn, 'g': rng.choice('PQ'), 'h': 't'}
            elif fn == 'stdp': x = api.ask(rng, ts, fn, 'l', 'g')
            elif fn == 'parsep': x = api.ask(rng, ts, fn, 'l')
            else: x = api.ask(rng, ts, fn, rng.choice('AB'), rng.choice('PQ') if fn != 'parse' else None)
            if fn in ('std', 'parse', 'match', 'getl'): x['form'] = rng.choice(['text', 'text', 'comp'])
            qs.append(x)
        def also(x, o, w):
            seq.append((x, o, w))
            if x['fn'] in ('getl', 'getg'):
                if x['fn'] == 'getl': seq.append((dict(probe, l='t'), None, w))
                seq.append(({'fn': 'free' + x['fn'][3], 'h': 't'}, None, w))
        probe = {'fn': 'parsep', 'l': 'l', 't': list(ts[0]), 'loc': 'en_US', 'f': ['SPACE']}
        for x in qs: also(x, None, False)
        seq.append((probe, None, False))
        for x in qs: also(x, None, True)
        for x in qs:
            seq.append((x, None, True))
            if x['fn'] in ('getl', 'getg'): seq.append(({'fn': 'free' + x['fn'][3], 'h': 't'}, None, True))
            for o in places(rng, ctx.n(10, 24)): also(x, o, True)
        for x in qs: also(x, None, True)
        seq.append((probe, None, True))
        items.append(exhaust_item(w, seq))
    suite.run(ctx, asan, 'TraceExhaust', items, 'memory runs out during every kind of call', env=ASAN, chunk=4, limit=30)
    suite.run(ctx, asan, 'TraceExhaust', sweeps(ctx), 'memory runs out at every place of a call', env=ASAN, chunk=1, limit=60)
    suite.run(ctx, build.core(malloc=True), 'TraceExhaust', deep_sweeps(ctx), 'the C library gives no memory', chunk=1, limit=60)
    ctx.notes.append('an allocation of a call fails (one, or it and all later ones of the call): the answer is an error or the ordinary one, the bytes held are those before, and the same questions are answered as before')
    ctx.assumptions.append('an allocation fails by operator new throwing, or (one at a time, in calls that are otherwise answered) by malloc, calloc or realloc giving NULL; when the text of an error itself cannot be allocated the C API has no way to tell')

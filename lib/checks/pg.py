"""C14, C15, C21: the SQL layer on a stub PostgreSQL runtime (Cache.tla, Srf.tla)."""
import json, os, re
import build, drv, tlc, gen, suite
from suite import Item, Bad
from . import api
from .api import ASAN, World

TYPES = {'text': 't', 'integer': 'i', 'int': 'i', 'int4': 'i', 'float': 'f', 'float8': 'f', 'double precision': 'f'}


def declared():
    """What the extension script declares: argument names in order, result columns, set or not."""
    s = open(os.path.join(build.SRC, 'address_standardizer2--2.0.sql.in'), encoding='utf-8').read()
    s = re.sub(r'--[^\n]*', '', s)
    fns = {}
    for m in re.finditer(r'CREATE\s+OR\s+REPLACE\s+FUNCTION\s+(\w+)\s*\((.*?)\)\s*RETURNS\s+(.*?)\s+AS\s+\'[^\']*\'\s*,\s*\'(\w+)\'', s, re.S | re.I):
        args, out = [], []
        for a in m.group(2).split(','):
            w = a.split()
            if w[0].upper() == 'OUT': out.append([w[1], TYPES.get(' '.join(w[2:]).lower(), 't')])
            else: args.append(w[0])
        fns[m.group(1)] = {'args': args, 'out': out, 'set': 'SETOF' in m.group(3).upper(), 'sym': m.group(4)}
    return fns


def site_cmd(fns, name, st, fn):
    d = fns[fn]
    return {'op': 'site', 'site': name, 'st': st, 'fn': d['sym'], 'out': d['out'], 'set': d['set']}


def call_cmd(fns, site, fn, vals, flags=0):
    return {'op': 'call', 'site': site, 'args': [vals[a] for a in fns[fn]['args']], 'flags': flags}


def val(v):
    return 'null' if v is None else '=' + v


def std_fields(r):
    """a library answer of std as the record the SQL function has to give"""
    if r.get('err') is not None or r.get('res') is None: return {}
    return {k: '=' + v for k, v in r['res'].items() if v is not None}


def sql_fields(r):
    return {n: '=' + v for n, v in zip(r['n'], r['v']) if v is not None}


def cover(edges, maxlen, rng, start=None):
    """walks from the start state that together take every edge"""
    out = {}
    for e in edges:
        a, b = json.dumps(e['a'], sort_keys=True), json.dumps(e['b'], sort_keys=True)
        out.setdefault(a, []).append((b, e['c']))
    first = json.dumps(start if start is not None else edges[0]['a'], sort_keys=True)
    todo = {a: list(range(len(v))) for a, v in out.items()}
    for v in todo.values(): rng.shuffle(v)
    left = sum(map(len, todo.values()))
    walks = []
    while left:
        at, walk = first, []
        while len(walk) < maxlen and left:
            if todo.get(at):
                n = todo[at].pop(); left -= 1
                b, c = out[at][n]; walk.append(c); at = b
                continue
            seen, queue, goal = {at: None}, [at], None
            while queue and goal is None:
                nq = []
                for x in queue:
                    for b, c in out.get(x, []):
                        if b not in seen:
                            seen[b] = (x, c)
                            if todo.get(b): goal = b; break
                            nq.append(b)
                    if goal: break
                queue = nq
            if goal is None: break
            path, x = [], goal
            while seen[x]: path.append(seen[x][1]); x = seen[x][0]
            path.reverse()
            if len(walk) + len(path) >= maxlen and walk: break
            walk += path; at = goal
        if not walk: raise RuntimeError('edges that cannot be reached')
        walks.append(walk)
    return walks


# ---- histories of as_standardize --------------------------------------------

def history(fns, world, home, calls, want, due, flags, bad=(), key=None, info=None):
    """calls: ('call', site, l, g, text, loc, filt) | ('end', st); home: site -> statement"""
    cmds, plan = [], []
    live = set()
    for x in calls:
        if x[0] == 'end':
            if x[1] in live:
                cmds.append({'op': 'end', 'st': x[1]}); plan.append(x); live.discard(x[1])
            continue
        _, site, l, g, t, loc, f = x
        st = home[site]
        if st not in live:
            live.add(st)
            cmds.append({'op': 'begin', 'st': st}); plan.append(None)
            for s, h in sorted(home.items()):
                if h == st: cmds.append(site_cmd(fns, s, st, 'as_standardize')); plan.append(None)
        cmds.append(call_cmd(fns, site, 'as_standardize', {'address': t, 'grammar': world.gmr[g], 'lexicon': world.lex[l], 'locale': loc, 'filter': f}, flags))
        plan.append(x)
    for st in sorted(live):
        cmds.append({'op': 'end', 'st': st}); plan.append(('end', st))

    # equal texts are one content
    lid, gid = ({k: min(j for j in d if d[j] == v) for k, v in d.items()} for d in (world.lex, world.gmr))

    def rec(rs):
        out = []
        for x, r in zip(plan, rs):
            if x is None: continue
            if 'exc' in r: raise Bad('an exception: ' + r['exc'])
            if x[0] == 'end':
                out.append({'op': 'end', 'st': x[1], 'ev': r['ev']}); continue
            _, site, l, g, t, loc, f = x
            ok = l not in bad and g not in bad
            if r['k'] not in ('one', 'err'): raise Bad('as_standardize gives no row')
            out.append({'op': 'call', 'site': site, 'l': lid[l], 'g': gid[g], 'ok': ok, 'k': r['k'], 'ev': r['ev'],
                        'ans': sql_fields(r) if r['k'] == 'one' else {}, 'due': due.get((l, g, t, loc, f), {})})
        return [{'want': want, 'home': home, 'calls': out}]
    return Item(cmds, rec, key=key, info=info)


def dues(world, qs):
    """the library's own answers, each lexicon and grammar loaded for the question alone"""
    qs = sorted(set(qs))
    rs = drv.run_all(build.core(), [{'op': 'std', 'addr': t, 'lex': world.lex[l], 'gmr': world.gmr[g], 'loc': loc, 'filt': f} for l, g, t, loc, f in qs], chunk=16)
    return {q: std_fields(r) for q, r in zip(qs, rs) if not drv.bad(r)}


def twin(std='STREET', name='x', extra=''):
    return gen.lex_text([dict(w='ST', s=std, t=['TYPE'], a=['DET_SUF'])], name=name) + extra


def small_world():
    lex = {'a': twin('STREET'), 'b': twin('STREEU'), 'c': twin('STREET', 'y')}
    lex['bad'] = lex['a'].split('\n', 1)[1]                 # entries before the lexicon line
    g = '[ADDRESS]\nNUMBER WORD TYPE -> HOUSE %s SUFTYP -> 0.%s\n'
    gmr = {'p': g % ('STREET', '5'), 'q': g % ('CITY', '5'), 'r': g % ('STREET', '6'), 'bad': '[ADDRESS]\nNUMBER WORD -> HOUSE -> 0.5\n'}
    return World(lex, gmr)


MODEL_PAIRS = {1: ('a', 'p'), 2: ('a', 'q'), 3: ('b', 'p'), 4: ('b', 'q'), 5: ('c', 'p'), 6: ('c', 'r'), 11: ('bad', 'p'), 12: ('a', 'bad'), 13: ('bad', 'bad')}
Q = ('12 MAIN ST', 'en_US', 'SPACE,PUNCT')


def model_walks(ctx, fns, want, exe, env=None, bad='{11, 12}'):
    r = tlc.model('MCCache', consts={'Pairs': '1..5', 'Bad': bad})
    ctx.model(r, 'MCCache (calls of one statement)')
    edges = r.printed('EDGE')
    w = small_world()
    due = dues(w, [MODEL_PAIRS[n] + Q for n in range(1, 7)])
    seen = {json.dumps(due[MODEL_PAIRS[n] + Q], sort_keys=True) for n in (1, 2, 3, 4)}
    if len(seen) < 4: ctx.notes.append('the small world does not tell its pairs apart')
    items = []
    for k, walk in enumerate(cover(edges, 120, ctx.rng, [[0, 0, 0, 0], 0])):
        calls = [('end', 'S') if c == 0 else ('call', 's') + MODEL_PAIRS[c] + Q for c in walk]
        items.append(history(fns, w, {'s': 'S'}, calls, want, due, k % 2, bad=('bad',)))
    suite.run(ctx, exe, 'TraceCache', items, 'every transition of the cache model', env=env, chunk=2, limit=60)


def more_worlds(ctx, n):
    """worlds with five lexicon texts (two of them compiled) and three grammars"""
    rng = ctx.rng
    ws = api.worlds(ctx, n, 2)
    comp = drv.run_all(build.core(), [{'op': 'compile', 'lex': w.lex[k]} for w, _ in ws for k in 'AB'])
    out = []
    for n, (w, ts) in enumerate(ws):
        lex = dict(w.lex)
        for k, r in zip('AB', comp[2 * n:2 * n + 2]):
            if r and r.get('res'): lex['c' + k] = r['res']
        lex['D'] = w.lex['A'] + '\n' if rng.random() < 0.5 else w.lex['A'].replace('LEXICON:\tx', 'LEXICON:\tz', 1)
        gmr = dict(w.gmr)
        gmr['R'] = w.gmr['P'] + '\n'
        lex['bad'] = rng.choice(['', 'LEXENTRY:\tA\n', 'junk', w.lex['A'].split('\n', 1)[1] or 'x'])
        gmr['bad'] = rng.choice(['', '[ADDRESS]\nWORD -> STREET\n', '[X]\nWORD -> STREET -> 0.5\n', '[ADDRESS]\n@NOPE\n'])
        out.append((World(lex, gmr), ts))
    return out


def unloadable(ctx, sets):
    """of the texts meant to be refused keep those the library refuses"""
    ls = drv.run_all(build.core(), [{'op': 'getl', 'id': 'x', 'lex': w.lex['bad']} for w, _ in sets])
    gs = drv.run_all(build.core(), [{'op': 'getg', 'id': 'x', 'gmr': w.gmr['bad']} for w, _ in sets])
    for (w, _), l, g in zip(sets, ls, gs):
        if drv.bad(l) or l.get('ok'): del w.lex['bad']
        if drv.bad(g) or g.get('ok'): del w.gmr['bad']


def random_histories(ctx, fns, want, exe, count, env=None):
    rng = ctx.rng
    sets = more_worlds(ctx, count)
    unloadable(ctx, sets)
    items, per = [], 2 if ctx.thorough else 1
    for w, ts in sets:
        good = [(l, g) for l in w.lex if l != 'bad' for g in w.gmr if g != 'bad']
        allp = [(l, g) for l in w.lex for g in w.gmr]
        for _ in range(per):
            pool = rng.sample(good, min(len(good), rng.choice([2, 4, 5, 6, 8, 12])))
            home = rng.choice([{'s': 'S'}, {'s': 'S'}, {'s': 'S', 't': 'T'}, {'s': 'S', 't': 'S', 'u': 'U'}])
            calls = []
            for _ in range(rng.choice([8, 16, 30])):
                if rng.random() < 0.06: calls.append(('end', home[rng.choice(sorted(home))])); continue
                l, g = rng.choice(allp) if rng.random() < 0.15 else rng.choice(pool)
                calls.append(('call', rng.choice(sorted(home)), l, g, rng.choice(ts), rng.choice(['en_US', 'en_US', 'de_DE', 'fr']), ','.join(rng.choice(api.FILTERS))))
            due = dues(w, [x[2:] for x in calls if x[0] == 'call' and 'bad' not in x[2:4]])
            items.append(history(fns, w, home, calls, want, due, rng.randint(0, 1), bad=('bad',)))
    suite.run(ctx, exe, 'TraceCache', items, 'random histories', env=env, chunk=2, limit=60)


def near_twins(ctx, fns, exe):
    """texts that differ in one character, at every offset to the blocks of the digest; digests that agree in part"""
    rng = ctx.rng
    items = []
    g = '[ADDRESS]\nNUMBER WORD TYPE -> HOUSE %s SUFTYP -> 0.5\n'
    jobs = []
    for n in range(0, ctx.n(130, 400)):
        pad = 'x' * (n + 1)
        tail = ''.join('LEXENTRY:\t%s\t%s\tWORD\tDETACH\n' % (k, k) for k in rng.sample(['QA', 'QB', 'QC', 'QD'], rng.randint(0, 2)))
        pos = rng.randint(0, 5)
        std = list('STREET'); std[pos] = chr(ord(std[pos]) ^ rng.choice([1, 2, 4]))
        w = World({'a': twin('STREET', pad, tail), 'b': twin(''.join(std), pad, tail)},
                  {'p': '#' + pad + '\n' + g % 'STREET', 'q': '#' + pad + '\n' + g % 'PREDIR', 'r': '#' + pad[:-1] + 'y\n' + g % 'STREET'})
        jobs.append((w, [('a', 'p'), ('b', 'p'), ('a', 'q'), ('b', 'q'), ('a', 'p'), ('a', 'r'), ('b', 'p')]))
    base = twin('S%d')
    near = drv.run_all(build.core(), [{'op': 'md5near', 'pre': base.split('%d')[0], 'post': base.split('%d')[1], 'from': 100000, 'count': ctx.n(60000, 400000)},
                                      {'op': 'md5near', 'pre': '#', 'post': '\n' + g % 'STREET', 'from': 100000, 'count': ctx.n(60000, 400000)}], limit=120)
    if all(r and 'near' in r for r in near):
        for a, b, k in near[0]['near']:
            jobs.append((World({'a': base.replace('%d', str(a)), 'b': base.replace('%d', str(b))}, {'p': g % 'STREET'}), [('a', 'p'), ('b', 'p'), ('a', 'p')]))
            ctx.parts.append('two lexicons whose digests agree in %d characters' % k)
        for a, b, k in near[1]['near']:
            jobs.append((World({'a': twin()}, {'p': '#%d\n' % a + g % 'STREET', 'q': '#%d\n' % b + g % 'STREET'}), [('a', 'p'), ('a', 'q'), ('a', 'p')]))
    for w, seq in jobs:
        items.append((w, seq))
    cmds, keys = [], []
    for n, (w, seq) in enumerate(items):
        for l, gg in sorted(set(seq)):
            keys.append((n, (l, gg) + Q)); cmds.append({'op': 'std', 'addr': Q[0], 'lex': w.lex[l], 'gmr': w.gmr[gg], 'loc': Q[1], 'filt': Q[2]})
    due = {}
    for (n, q), r in zip(keys, drv.run_all(build.core(), cmds)):
        if not drv.bad(r): due.setdefault(n, {})[q] = std_fields(r)
    its = [history(fns, w, {'s': 'S'}, [('call', 's') + p + Q for p in seq], 'C14', due.get(n, {}), n % 2) for n, (w, seq) in enumerate(items)]
    suite.run(ctx, exe, 'TraceCache', its, 'texts that differ in one character', chunk=8)


def c14(ctx):
    fns = declared()
    exe = build.pg()
    r = tlc.model('MCCacheSteps', consts=dict(Lexs='{"a","b","x"}', Gmrs='{"p","y"}', OkL='{"a","b"}', OkG='{"p"}', Stmts='{"s","t"}', Ids='1..6', Places='2', AnyId='FALSE'))
    ctx.model(r, 'MCCacheSteps (two statements, step by step)')
    if ctx.thorough:
        r = tlc.model('MCCacheSteps', consts=dict(Lexs='{"a","b","c","x"}', Gmrs='{"p","q","y"}', OkL='{"a","b","c"}', OkG='{"p","q"}', Stmts='{"s"}', Ids='1..5', Places='4', AnyId='FALSE'))
        ctx.model(r, 'MCCacheSteps (four places)')
    model_walks(ctx, fns, 'C14', exe)
    near_twins(ctx, fns, exe)
    random_histories(ctx, fns, 'C14', exe, ctx.n(150, 1500))
    ctx.assumptions.append('PostgreSQL is represented by harness/pgstub.c (memory contexts, reset callbacks, hash tables, errors).')


def steady(ctx, fns, exe):
    """the same calls again and again take no more memory"""
    w = small_world()
    rng = ctx.rng
    allp = [1, 2, 3, 4, 5, 6, 11, 12, 13]
    items = []
    for n in range(ctx.n(16, 80)):
        walk = [rng.choice(allp) for _ in range(rng.choice([3, 6, 10]))] if n > 3 else [[1, 2, 3, 4, 5, 6], [11], [12], [1, 11, 12]][n]
        ends = n % 2 == 1 and n > 3
        calls = [call_cmd(fns, 's', 'as_standardize', dict(zip(('address', 'locale', 'filter'), Q), lexicon=w.lex[MODEL_PAIRS[c][0]], grammar=w.gmr[MODEL_PAIRS[c][1]])) for c in walk]
        op = [{'op': 'begin', 'st': 'S'}, site_cmd(fns, 's', 'S', 'as_standardize')]
        cmds = list(op)
        for rep in range(7):
            cmds += calls
            if ends: cmds += [{'op': 'end', 'st': 'S'}] + op
            cmds += [{'op': 'mem', 'st': 'S'}]
        cmds += [{'op': 'end', 'st': 'S'}]

        def rec(rs, cmds=cmds):
            m = [{'heap': r['heap'], 'stmt': r['stmt']} for c, r in zip(cmds, rs) if c['op'] == 'mem']
            return [{'mem': m[2:]}]
        items.append(Item(cmds, rec, info=walk))
    suite.run(ctx, exe, 'TraceCache', items, 'memory of repeated calls', env=ASAN, chunk=2, limit=60)


def c15(ctx):
    fns = declared()
    exe = build.pg(True)
    r = tlc.model('MCCacheSteps', consts=dict(Lexs='{"a","b","x"}', Gmrs='{"p","y"}', OkL='{"a","b"}', OkG='{"p"}', Stmts='{"s","t"}', Ids='1..6', Places='2', AnyId='FALSE'))
    ctx.model(r, 'MCCacheSteps (two statements, step by step)')
    if ctx.thorough:
        r = tlc.model('MCCacheSteps', consts=dict(Lexs='{"a","b","c","x"}', Gmrs='{"p","q","y"}', OkL='{"a","b","c"}', OkG='{"p","q"}', Stmts='{"s"}', Ids='1..5', Places='3', AnyId='TRUE'))
        ctx.model(r, 'MCCacheSteps (three places, any address)')
    model_walks(ctx, fns, 'C15', exe, env=ASAN, bad='{11, 12, 13}' if ctx.thorough else '{11, 12}')
    random_histories(ctx, fns, 'C15', exe, ctx.n(60, 800), env=ASAN)
    steady(ctx, fns, exe)
    ctx.assumptions.append('PostgreSQL is represented by harness/pgstub.c (memory contexts, reset callbacks, hash tables, errors).')


# ---- the rows of the SQL functions ------------------------------------------

def lib_rows(fns, fn, r):
    """the rows the SQL function has to give for a library answer, by declared column"""
    if drv.bad(r): return None
    rows = r.get('rows') or [] if r.get('err') is None else []
    out = []
    for x in rows:
        y = dict(x)
        if fn == 'as_parse': y['pat'] += 1; y['seq'] += 1
        out.append({n: '=' + (repr(float(y[n])) if t == 'f' else str(y[n])) for n, t in fns[fn]['out'] if n in y})
    return out


def sql_row(fns, fn, r):
    types = dict(fns[fn]['out'])
    o = {}
    for n, v in zip(r['n'], r['v']):
        if v is None: continue
        o[n] = '=' + (repr(float(v)) if types[n] == 'f' else v)
    return o


class Scan:
    """arguments of a call with the library's answer"""
    __slots__ = ('fn', 'vals', 'lib', 'fails')

    def __init__(self, fn, vals, lib, fails=False):
        self.fn, self.vals, self.lib, self.fails = fn, vals, lib, fails


def scans(ctx, fns, n):
    """fn -> count of rows -> scans"""
    rng = ctx.rng
    qs = []
    for w, ts in api.worlds(ctx, n, 3):
        ts = ts + ['', rng.choice(ts).split(' ')[0]]
        for t in ts:
            v = {'address': t, 'grammar': w.gmr[rng.choice('PQ')], 'lexicon': w.lex[rng.choice('AB')], 'locale': 'en_US', 'filter': ','.join(rng.choice(api.FILTERS))}
            qs += [('as_parse', v), ('as_match', v), ('as_standardize', v), ('as_compile_lexicon', v)]
    w = small_world()
    g1 = '[ADDRESS]\n@A\n[A]\n' + ''.join('WORD -> %s -> 0.%d\n' % (o, k) for k, o in enumerate(['STREET', 'CITY', 'PROV'], 3))
    for k in range(4):
        v = {'address': ' '.join('ABC'[:k]), 'grammar': g1, 'lexicon': w.lex['a'], 'locale': 'en_US', 'filter': 'SPACE'}
        qs.append(('as_parse', v)); qs.append(('as_match', v)); qs.append(('as_standardize', v))
        lines = ['WORD -> %s -> 0.%d\n' % (o, j) for j, o in enumerate(['STREET', 'CITY', 'PROV'][:k], 3)] or ['NUMBER -> HOUSE -> 0.5\n']
        qs.append(('as_match', {'address': 'A', 'grammar': '[ADDRESS]\n@A\n[A]\n' + ''.join(lines), 'lexicon': w.lex['a'], 'locale': 'en_US', 'filter': 'SPACE'}))
    for l, g in (('bad', 'p'), ('a', 'bad')):
        v = {'address': '12 MAIN ST', 'grammar': w.gmr[g], 'lexicon': w.lex[l], 'locale': 'en_US', 'filter': 'SPACE'}
        qs += [('as_parse', v), ('as_match', v), ('as_standardize', v), ('as_compile_lexicon', v)]
    op = {'as_parse': 'parse', 'as_match': 'match', 'as_standardize': 'std', 'as_compile_lexicon': 'compile'}
    rs = drv.run_all(build.core(), [{'op': op[fn], 'addr': v['address'], 'lex': v['lexicon'], 'gmr': v['grammar'], 'loc': v['locale'], 'filt': v['filter']} for fn, v in qs])
    # only a lexicon or grammar that cannot be loaded makes as_standardize fail
    ld = drv.run_all(build.core(), [{'op': 'getl', 'id': 'x', 'lex': v['lexicon']} for fn, v in qs])
    gd = drv.run_all(build.core(), [{'op': 'getg', 'id': 'x', 'gmr': v['grammar']} for fn, v in qs])
    res = {'as_parse': {}, 'as_match': {}, 'as_standardize': {}, 'as_compile_lexicon': {}}
    for (fn, v), r, l, g in zip(qs, rs, ld, gd):
        if drv.bad(r) or drv.bad(l) or drv.bad(g): continue
        if fn in ('as_parse', 'as_match'):
            lib = lib_rows(fns, fn, r)
            res[fn].setdefault(len(lib), []).append(Scan(fn, v, lib))
        elif fn == 'as_standardize':
            lib = std_fields(r)
            res[fn].setdefault(len(lib), []).append(Scan(fn, v, lib, not (l.get('ok') and g.get('ok'))))
        else:
            res[fn].setdefault(1, []).append(Scan(fn, v, {'text': '=' + r['res']} if r.get('res') is not None else {}, r.get('res') is None))
    return res


def interleaving(fns, sites, calls, flags, info=None):
    """sites: name -> fn; calls: (site, Scan) | (site, None): stop"""
    cmds = [{'op': 'begin', 'st': 'S'}] + [site_cmd(fns, s, 'S', f) for s, f in sorted(sites.items())]
    k0 = len(cmds)
    for s, sc in calls:
        cmds.append({'op': 'stop', 'site': s} if sc is None else call_cmd(fns, s, sc.fn, sc.vals, flags))
    cmds.append({'op': 'end', 'st': 'S'})

    def rec(rs):
        out = []
        for (s, sc), r in zip(calls, rs[k0:]):
            if 'exc' in r: raise Bad('an exception: ' + r['exc'])
            if sc is None: out.append({'site': s, 'stop': True}); continue
            y = {'site': s, 'lib': sc.lib, 'fails': sc.fails, 'k': r['k'], 'v': {}}
            if r['k'] in ('row', 'one'):
                y['v'] = {'text': '=' + r['v'][0]} if not fns[sc.fn]['out'] else sql_row(fns, sc.fn, r)
            out.append(y)
        kind = {s: 'set' if fns[f]['set'] else 'one' for s, f in sites.items()}
        return [{'kind': kind, 'calls': out}]
    return Item(cmds, rec, info=info)


def c21(ctx):
    fns = declared()
    rng = ctx.rng
    exe = build.pg(True)
    sc = scans(ctx, fns, ctx.n(120, 600))
    for fn in ('as_parse', 'as_match'):
        ctx.parts.append('%s: answers of %s rows' % (fn, sorted(sc[fn])))
    r = tlc.model('MCSrf', consts={'Sites': '{"x", "y", "z"}', 'Counts': '0..3' if ctx.thorough else '{0, 1, 3}'})
    ctx.model(r, 'MCSrf (three scans interleaved)')
    edges = [e for e in r.printed('EDGE')]
    items = []
    single = [s for k in sc['as_standardize'].values() for s in k] + [s for k in sc['as_compile_lexicon'].values() for s in k]
    fset = [s for s in single if s.fails]
    for n, walk in enumerate(cover(edges, 40, rng, {x: [False, 0, 0] for x in 'xyz'})):
        sites = dict(zip('xyz', rng.choice([('as_parse', 'as_match', 'as_parse'), ('as_match', 'as_parse', 'as_match'), ('as_parse', 'as_parse', 'as_match')])))
        sites.update(o='as_standardize', c='as_compile_lexicon')
        cur, calls = {}, []
        for st in walk:
            x, c = st['x'], st['c']
            if c < 0: calls.append((x, None)); cur.pop(x, None); continue
            if x not in cur: cur[x] = [rng.choice(sc[sites[x]][c]), 0]
            s = cur[x]
            calls.append((x, s[0])); s[1] += 1
            if s[1] > c: cur.pop(x)
            if rng.random() < 0.15:
                y = rng.choice(fset) if fset and rng.random() < 0.1 else rng.choice(single)
                calls.append(('o' if y.fn == 'as_standardize' else 'c', y))
        items.append(interleaving(fns, sites, calls, n % 2))
    suite.run(ctx, exe, 'TraceSrf', items, 'every transition of the scan model', env=ASAN, chunk=2, limit=60)
    items = []
    pool = [s for fn in ('as_parse', 'as_match') for k in sc[fn].values() for s in k]
    for n, s in enumerate(rng.sample(pool, min(len(pool), ctx.n(400, 4000)))):
        o = rng.choice(pool)
        sites = {'x': s.fn, 'y': o.fn}
        a, b = [('x', s)] * (len(s.lib) + 1), [('y', o)] * (len(o.lib) + 1)
        calls = []
        while a or b:
            src = a if a and (not b or rng.random() < 0.5) else b
            calls.append(src.pop())
        calls += [('x', s)] * (len(s.lib) + 1)
        items.append(interleaving(fns, sites, calls, n % 2))
    suite.run(ctx, exe, 'TraceSrf', items, 'two scans at random', env=ASAN, chunk=4, limit=60)
    items = [interleaving(fns, {'o': 'as_standardize', 'c': 'as_compile_lexicon'}, [('o' if s.fn == 'as_standardize' else 'c', s) for s in single[k:k + 8]], k % 2) for k in range(0, len(single), 8)]
    suite.run(ctx, exe, 'TraceSrf', items, 'single results', env=ASAN, chunk=4, limit=60)
    ctx.assumptions.append('PostgreSQL is represented by harness/pgstub.c; columns and argument order come from the extension script.')

"""Record the implementation on generated cases and let the specification judge."""
import json, os, time
import drv, tlc, uni


class Item:
    """cmds: driver commands; rec: replies -> list of records for the trace module
    (it may raise Bad for a reply no record can be made of)."""
    __slots__ = ('cmds', 'rec', 'key', 'info')

    def __init__(self, cmds, rec, key=None, info=None):
        self.cmds, self.rec, self.key, self.info = cmds, rec, key, info


class Bad(Exception):
    pass


def _records(it, rs):
    for r in rs:
        if r is None: raise Bad('no reply')
        if 'crash' in r: raise Bad('the process died (exit %s) %s' % (r['crash'], ' '.join(([l for l in r['stderr'].split('\n') if 'ERROR: ' in l] or [r['stderr'][-300:]])[0].split())[:300]))
        if 'timeout' in r: raise Bad('no reply within the time limit')
        if 'badop' in r: raise RuntimeError('driver does not know ' + str(r['badop']))
    if len(rs) < len(it.cmds): raise Bad('incomplete replies')
    try:
        return it.rec(rs)
    except (KeyError, TypeError, ValueError, IndexError, AttributeError) as e:
        raise Bad('a malformed reply (%s: %s)' % (type(e).__name__, e))


def run(ctx, exe, module, items, name, prelude=(), limit=20, env=None, consts=None, workers=8, chunk=32, timeout=420, extra_chars=''):
    """Returns the number of accepted records."""
    if os.environ.get('VP_SUITE', '') not in name: return 0         # (for working on one suite)
    hist, began = [], time.time()
    replies = drv.run_items(exe, [it.cmds for it in items], limit, workers, prelude, env, chunk, hist)
    recs, owner, bad = [], [], []
    for n, (it, rs) in enumerate(zip(items, replies)):
        if rs is None: continue
        try:
            for r in _records(it, rs):
                recs.append(r); owner.append(n)
        except Bad as e:
            bad.append((n, str(e)))
    ctx.evals += sum(len(it.cmds) for it in items)
    table = uni.tables(recs, extra_chars)
    mism, states = judge(module, recs, consts, table, timeout)
    ctx.states += states; ctx.transitions += states
    ctx.traces += states - len(mism)
    ctx.parts.append('%s: %d cases, %d records judged by %s, %.1fs' % (name, len(items), len(recs), module, time.time() - began))
    for r in recs[:2]:
        s = json.dumps(r, ensure_ascii=True)
        ctx.sample({name: r if len(s) < 1500 else s[:1500] + ' ...'})
    for r in recs:
        ctx.nontrivial.add(hash(json.dumps(r, sort_keys=True)))
    suspects = sorted(set([n for n, _ in bad] + [owner[i] for i, _ in mism]))
    # confirm each suspect in a fresh process with a larger limit: alone, or after what its process had done before
    t0, found = time.time(), 0
    for n in suspects[:12]:
        if found >= 3 or found and time.time() - t0 > 60: break
        it = items[n]
        why = shown = None
        for before in ((), tuple(hist[n][0][:hist[n][1]]) if hist[n] else ()):
            if before == () and why is None and shown == (): break
            d = drv.Drv(exe, limit * 4, prelude, env)
            for j in before:
                for c in items[j].cmds: d.call(c)
            rs = []
            for c in it.cmds:
                rs.append(d.call(c))
                if drv.bad(rs[-1]): break
            d.close()
            try:
                rr = _records(it, rs)
                m, _ = judge(module, rr, consts, table, timeout) if rr else ([], 0)
                if m:
                    why = '; '.join(sorted(set(w for _, w in m)))
                    shown = [rr[i] for i, _ in m][:3]
            except Bad as e:
                why, shown = str(e), None
            if why is not None: break
            shown = ()
        if why is None:
            ctx.notes.append('a suspect of %s did not repeat' % name)
            continue
        found += 1
        cmds = [c for j in before for c in items[j].cmds] + it.cmds
        if before: why += ' (only after %d earlier calls)' % (len(cmds) - len(it.cmds))
        ctx.violation('%s: %s' % (name, why), {'suite': name, 'cmds': cmds, 'prelude': list(prelude)[:3], 'why': why, 'records': shown, 'info': it.info}, key=it.key)
    return len(recs) - len(mism)


def judge(module, recs, consts=None, table=None, timeout=420, batch=20000):
    bad, states = [], 0
    files = {'uni.json': json.dumps(table, ensure_ascii=False)} if table else {}
    cfg = open(tlc.SPEC + '/Judge.cfg').read()
    for o in range(0, len(recs), batch):
        part = list(range(o, min(len(recs), o + batch)))
        for attempt in range(8):
            fs = dict(files)
            fs['cases.ndjson'] = '\n'.join(json.dumps(recs[j], ensure_ascii=False) for j in part) + '\n'
            try: r = tlc.run(module, consts=consts, files=fs, timeout=timeout, cfg=cfg)
            except tlc.TlcError as e:
                # too much for TLC: what it had found by then still counts
                found = e.partial.printed('MISMATCH') if e.partial else []
                if not found: raise
                bad += [(part[m['i'] - 1], m['why']) for m in found]
                return sorted(set(bad)), states + len(found)
            if r.ok:
                if r.distinct != len(part):
                    raise tlc.TlcError('%s visited %d states for %d cases\n%s' % (module, r.distinct, len(part), r.out[-2000:]))
                states += r.distinct
                for m in r.printed('MISMATCH'):
                    bad.append((part[m['i'] - 1], m['why']))
                break
            # a record on which the specification is not even defined: the implementation
            # answered something outside its types (e.g. an unknown class)
            k = r.last_i()
            if k is None or (attempt == 7 and not bad):
                raise tlc.TlcError('TLC: %s failed\n%s' % (module, r.out[r.out.find('rror'):][:1500]))
            bad.append((part[k - 1], 'the record is outside the domain of the specification: ' + r.error_line()))
            del part[k - 1]
            states += 1
            if not part: break
    return sorted(set(bad)), states

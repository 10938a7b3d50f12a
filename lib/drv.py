"""Line-oriented JSON client for the conformance drivers."""
import json, os, select, signal, subprocess, tempfile, threading, queue


class Drv:
    """One driver process.  call() returns the reply, or a dict with 'crash'
    (the process died) or 'timeout'.  After either, a fresh process is started
    on the next call, and the optional `prelude` commands are replayed."""

    def __init__(self, exe, limit=20, prelude=(), env=None):
        self.exe, self.limit, self.prelude = exe, limit, list(prelude)
        self.env = dict(os.environ, **(env or {}))
        self.p = None
        self.calls = 0

    def _start(self):
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe, str(self.limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=self.env)
        for c in self.prelude:
            self._send(c)

    def _send(self, cmd):
        try:
            self.p.stdin.write((json.dumps(cmd) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b''
        return line

    def call(self, cmd):
        if self.p is None:
            self._start()
        self.calls += 1
        line = self._send(cmd)
        if not line:
            self.p.wait()
            rc = self.p.returncode
            self.errf.seek(0, 2); n = self.errf.tell(); self.errf.seek(max(0, n - 20000))
            err = self.errf.read().decode(errors='replace')
            self.close()
            return {'crash': rc, 'stderr': err}
        try:
            r = json.loads(line.decode('utf-8', 'replace'))
            if not isinstance(r, dict): raise ValueError('not an object')
        except ValueError as e:         # the process has lost its mind
            self.p.kill(); self.close()
            return {'crash': 'garbled reply', 'stderr': '%s: %r' % (e, line[:200])}
        if r.get('timeout'):
            self.close()
        return r

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill(); self.p.wait()
            self.p.stdout.close(); self.errf.close()
            self.p = None


def run_all(exe, cmds, limit=20, workers=8, prelude=(), env=None, chunk=64):
    """Independent commands, spread over several driver processes; replies in order."""
    out = [None] * len(cmds)
    q = queue.Queue()
    for i in range(0, len(cmds), chunk):
        q.put(i)

    def work():
        d = Drv(exe, limit, prelude, env)
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                for j in range(i, min(len(cmds), i + chunk)):
                    out[j] = d.call(cmds[j])
        finally:
            d.close()
    ts = [threading.Thread(target=work) for _ in range(min(workers, (len(cmds) + chunk - 1) // chunk or 1))]
    for t in ts: t.start()
    for t in ts: t.join()
    return out


def bad(r):
    """A reply that is a crash, a timeout or an escaped exception."""
    return r is None or 'crash' in r or 'timeout' in r


def run_items(exe, items, limit=20, workers=8, prelude=(), env=None, chunk=32, hist=None):
    """items: list of command lists; each list runs in one process without interruption.
    hist: filled with, for each item, the items the same process had run before it."""
    out = [None] * len(items)
    if hist is not None: hist[:] = [()] * len(items)
    fails = []          # after a dozen crashes or timeouts the rest is left undone (None)
    q = queue.Queue()
    for i in range(0, len(items), chunk):
        q.put(i)

    def work():
        d = Drv(exe, limit, prelude, env)
        seen = []
        try:
            while len(fails) < 12:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                for j in range(i, min(len(items), i + chunk)):
                    if len(fails) >= 12: return
                    rs = []
                    if d.p is None: seen = []
                    if hist is not None: hist[j] = (seen, len(seen))
                    seen.append(j)
                    for c in items[j]:
                        r = d.call(c)
                        rs.append(r)
                        if bad(r):
                            fails.append(j)
                            break
                    out[j] = rs
        finally:
            d.close()
    ts = [threading.Thread(target=work) for _ in range(max(1, min(workers, (len(items) + chunk - 1) // chunk)))]
    for t in ts: t.start()
    for t in ts: t.join()
    return out


def rows(r):
    """The rows of a reply ([] when it is an error), or None when the reply is none at all."""
    if bad(r) or not isinstance(r.get('rows') or [], list): return None
    rs = r.get('rows') or []
    for x in rs:
        if not isinstance(x, dict) or not isinstance(x.get('pat'), int) or not isinstance(x.get('inclass'), str) or not 0 <= x['pat'] < 100000: return None
    return rs

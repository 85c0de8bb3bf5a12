"""Worker processes: each pinned to a CPU, one simulated run per request."""
import json, os, queue, subprocess, threading
from build import NINST


class Worker:
    def __init__(self, exe, node, cpu, env={}):
        self.env = env
        self.args = [exe, node, str(NINST), str(cpu)]
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  env={'LC_ALL': 'C', 'TZ': 'UTC', **self.env})

    def ask(self, line):
        try:
            self.p.stdin.write(line + '\n')
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except OSError:
            r = ''
        if not r:
            self.p.kill()
            self.p.wait()
            self.start()
            return {'infra': 'worker died'}
        try:
            return json.loads(r)
        except ValueError:
            return {'infra': 'unreadable reply'}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class Pool:
    """Runs requests from an iterator on all workers; results are handed to a callback under a lock."""

    def __init__(self, exe, node, n):
        ncpu = os.cpu_count() or 8
        with_threads = []
        self.ws = [None] * n

        def mk(i):
            self.ws[i] = Worker(exe, node, i % ncpu)
        for i in range(n):
            t = threading.Thread(target=mk, args=(i,))
            t.start()
            with_threads.append(t)
        for t in with_threads:
            t.join()
        self.lock = threading.Lock()

    def map(self, it, cb, stop=lambda: False):
        it = iter(it)

        def loop(w):
            while not stop():
                with self.lock:
                    try:
                        req = next(it)
                    except StopIteration:
                        return
                r = w.ask(req)
                with self.lock:
                    cb(req, r)
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.ws]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def close(self):
        for w in self.ws:
            w.close()

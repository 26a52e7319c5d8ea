"""Client of worker.py"""
import subprocess, json, os, select, time

PY = '/opt/venv/bin/python'


class Real:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.p = None

    def start(self):
        env = dict(os.environ, PV_REPO=self.repo, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        self.p = subprocess.Popen([PY, os.path.join(os.path.dirname(__file__), 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd='/tmp')

    def call(self, target, args, kw=None, seed=0, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        mod, fn = target.split(':')
        q = json.dumps({'mod': mod, 'fn': fn, 'args': args, 'kw': kw or {}, 'seed': seed})
        try:
            self.p.stdin.write(q + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'crash': 'worker'}
        end = time.time() + timeout
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'timeout': timeout}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'crash': 'worker'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

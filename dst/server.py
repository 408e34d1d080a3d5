"""Child process of the restart seam: answers one JSON request per line; started with its own PYTHONHASHSEED."""
import importlib
import json
import os
import subprocess
import sys

from dst.core import VERIF


class Child:
    """A separate interpreter; ask() sends a request to function `fn` of module dst.props.<mod> and returns its answer."""

    def __init__(self, hashseed):
        env = {**os.environ, 'PYTHONHASHSEED': str(hashseed)}
        self.p = subprocess.Popen([sys.executable, '-m', 'dst.server'], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True)

    def ask(self, mod, fn, arg):
        self.p.stdin.write(json.dumps([mod, fn, arg]) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('child process ended')
        return json.loads(line)

    def kill(self):
        self.p.kill()
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.kill()


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # nothing else may write to the answer pipe
    for line in sys.stdin:
        mod, fn, arg = json.loads(line)
        try:
            ans = {'ok': getattr(importlib.import_module(f'dst.props.{mod}'), fn)(arg)}
        except Exception as e:
            ans = {'exc': f'{type(e).__name__}: {e}'}
        out.write(json.dumps(ans) + '\n')
        out.flush()


if __name__ == '__main__':
    main()

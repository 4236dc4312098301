"""A compiled harness as a line-by-line question and answer process; its death is an error of the call, and it is started again."""
import json, os, subprocess


class Harness:
    def __init__(self, name):
        self.exe, self.p = os.path.join(os.environ["VF_DIR"], "bin", name), None

    def ask(self, line):
        if self.p is None:
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=65:max_malloc_fill_size=1000000")
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        while True:
            r = self.p.stdout.readline()
            if not r.endswith("\n"):
                self.p.stdin.close()
                err = self.p.stderr.read()
                self.p = None
                raise RuntimeError("harness ended: " + err[:800])
            if r.startswith("VF "):
                return json.loads(r[3:])

"""The Python 2 tools of the repository, executed by Jython, in an overlay directory with a copy of the tools and our build of slugs."""
import json, os, shutil, subprocess
from . import build
from . import pbt

HERE = os.path.dirname(os.path.abspath(__file__))


class Result:
    def __init__(self, d):
        self.rc, self.out, self.err = d["rc"], d["out"], d["err"]


class Tools:
    def __init__(self, ctx, slugs=None):
        self.ctx = ctx
        self.root = os.path.join(ctx.scratch, "overlay")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root + "/src")
        os.makedirs(self.root + "/tmp")
        shutil.copytree(build.REPO + "/tools", self.root + "/tools")
        if slugs:
            os.symlink(slugs, self.root + "/src/slugs")
        self.proc = None

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": self.root, "LANG": "C", "VP_CACHE": "4096", "VP_CPU": "60", "VP_AS_MB": "4000"}
        self.proc = subprocess.Popen(["java", "-XX:TieredStopAtLevel=1", "-Xmx700m", "-XX:ActiveProcessorCount=1", "-jar",
                                      "/usr/share/java/jython.jar", "-Dpython.home=/usr/share/jython",
                                      "-Dpython.executable=/usr/bin/jython", "-Dpython.cachedir.skip=true", HERE + "/jyserver.py"],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.root + "/jython.err", "w"), env=env,
                                     cwd=self.root)
        if self.proc.stdout.readline().strip() != b"ready":
            raise RuntimeError("Jython does not start: %s" % open(self.root + "/jython.err").read()[-2000:])

    def run(self, script, args, stdin="", timeout=100):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        p = self.root + "/tools/" + script
        q = {"script": p, "argv": [p] + list(args), "stdin": stdin, "path": os.path.dirname(p)}
        self.proc.stdin.write((json.dumps(q) + "\n").encode())
        self.proc.stdin.flush()
        try:
            pbt.wait_answer(script, self.proc.pid, self.proc.stdout.fileno(), timeout)
        except Exception:
            self.proc.kill()
            self.proc = None
            raise
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("Jython ended")
        return Result(json.loads(line))

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc = None

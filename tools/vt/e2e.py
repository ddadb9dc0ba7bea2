"""Running the shell binary itself in scratch folders."""
import os, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from .core import scratch_env, kill_group

_n = [0]
_l = threading.Lock()


def in_session(sid):
    """the processes of our own that are in session sid and not zombies"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    x = f.read().rsplit(")", 1)[1].split()
            except (OSError, IndexError):
                continue
            if x[3] == str(sid) and x[0] not in "ZX":
                out.append(int(d))
    return out


class Box:
    """One scratch folder: home, data and config folders of its own, working folder work/."""
    def __init__(self, root):
        with _l:
            _n[0] += 1
            self.dir = os.path.join(os.path.realpath(root), "box%d" % _n[0])
        self.env = scratch_env(self.dir)
        self.work = self.dir + "/work"

    def run(self, argv, cwd=None, env=None, stdin=b"", timeout=60, settle=False):
        e = dict(self.env)
        e.update(env or {})
        p = subprocess.Popen(argv, cwd=cwd or self.work, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        to = [False]

        def kill():
            to[0] = True
            kill_group(p)
        t = threading.Timer(timeout, kill)
        t.start()
        try:
            out, err = p.communicate(stdin)
            # settle: also wait for processes of the session that hold none of the pipes
            for _ in range(1000 if settle else 0):
                if not in_session(p.pid):
                    break
                time.sleep(0.005)
        finally:
            t.cancel()
            kill_group(p)
            for q in in_session(p.pid) if settle else []:
                try:
                    os.kill(q, 9)
                except OSError:
                    pass
        return dict(rc=p.returncode, out=out, err=err, timeout=to[0])

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def pmap(fn, items, n=24):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))

"""A simulated git repository behind a simulated subprocess.Popen."""

import contextlib
import subprocess


class SimGit:
    """repo: {"tag", "distance", "dirty", "head", "count", "date", "absent"};
    faults: {call index or command name: failure kind}."""

    def __init__(self, repo=None, faults=None):
        r = {"tag": "v1.2", "distance": 3, "dirty": False, "count": 40,
             "head": "0123456789abcdef0123456789abcdef01234567",
             "date": "2020-03-04 05:06:07 +0100", "absent": False, "abbrev": 7}
        r.update(repo or {})
        self.repo = r
        self.faults = {str(k): v for k, v in (faults or {}).items()}
        self.calls = []
        self.fired = []

    def answer(self, args):
        """(name, stdout text, returncode) of a healthy git."""
        r = self.repo
        a = list(args)
        if a and a[0] == "rev-parse" and "--git-dir" in a:
            return "gitdir", (".git\n", 0) if not r["absent"] else ("", 128)
        if r["absent"]:
            return a[0] if a else "", ("", 128)
        if a[:1] == ["rev-parse"]:
            return "head", (r["head"] + "\n", 0)
        if a[:1] == ["describe"]:
            short = r["head"][:r["abbrev"]]
            s = f"{r['tag']}-{r['distance']}-g{short}" if r["tag"] else short
            if "--long" not in a and r["tag"] and not r["distance"]:
                s = r["tag"]
            if r["dirty"] and "--dirty" in a:
                s += "-dirty"
            return "describe", (s + "\n", 0)
        if a[:1] == ["rev-list"]:
            return "count", (f"{r['count']}\n", 0)
        if a[:1] in (["show"], ["log"]):
            return "date", (r["date"] + "\n", 0)
        return a[0] if a else "", ("", 129)

    def popen(self, cmd, **kw):
        args = list(cmd) if not isinstance(cmd, str) else cmd.split()
        prog, rest = args[0], args[1:]
        name, (out, rc) = self.answer(rest)
        idx = len(self.calls)
        self.calls.append((name, prog))
        fault = self.faults.get(str(idx)) or self.faults.get(name)
        if fault:
            self.fired.append(f"{name}:{fault}")
        if fault == "enoent":
            raise FileNotFoundError(2, "No such file or directory", prog)
        if fault == "eacces":
            raise PermissionError(13, "Permission denied", prog)
        if fault == "enomem":
            raise OSError(12, "Cannot allocate memory", prog)
        if fault == "eagain":
            raise BlockingIOError(11, "Resource temporarily unavailable", prog)
        if fault == "enotdir":
            raise NotADirectoryError(20, "Not a directory", kw.get("cwd"))
        data = out.encode()
        if fault == "exit1":
            data, rc = b"", 1
        elif fault == "exit128-partial":
            data, rc = data[: len(data) // 2], 128
        elif fault == "killed":
            data, rc = b"", -9
        elif fault == "killed-partial":
            data, rc = data[: len(data) // 2], -15
        elif fault == "empty":
            data = b""
        elif fault == "blank":
            data = b"  \n\n"
        elif fault == "truncated":
            data = data[: max(1, len(data) // 2)]
        elif fault == "undecodable":
            data = b"\xff\xfe\x80" + data
        elif fault == "garbage":
            data = b"warning: redirecting to nowhere - x\n"
        return SimPopen(self, data, rc, kw, fault == "eio")


class SimPopen:
    def __init__(self, git, data, rc, kw, eio=False):
        self._eio = eio
        self._data, self._rc = data, rc
        self.returncode = None
        self.pid = 4242
        self.args = None
        text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        self._text = text

    def communicate(self, input=None, timeout=None):
        self.returncode = self._rc
        if self._eio:
            raise OSError(5, "Input/output error")
        d, e = self._data, b""
        if self._text:
            d, e = d.decode(), e.decode()
        return d, e

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def kill(self):
        pass

    terminate = kill

    @property
    def stdout(self):
        import io

        return io.BytesIO(self._data)

    stderr = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


@contextlib.contextmanager
def patched(git):
    """subprocess.Popen answered by the simulated repository."""
    real = subprocess.Popen

    class Popen(SimPopen):
        def __new__(cls, cmd, *a, **kw):
            return git.popen(cmd, **kw)

        def __init__(self, *a, **kw):
            pass

    subprocess.Popen = Popen
    try:
        yield git
    finally:
        subprocess.Popen = real

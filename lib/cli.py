"""Running the real noja binary, unprivileged, on scratch files."""
import os, subprocess, build


class Run:
    def __init__(self, rc, out, err): self.rc, self.out, self.err = rc, out, err


def _drop():
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (20, 22))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


def noja(args, cwd, stdin=b"", timeout=200, exe=None, env=None):
    exe = exe or build.build("cli")
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
    if env: e.update(env)
    kw = {}
    if os.geteuid() == 0: kw = {"user": 65534, "group": 65534, "extra_groups": []}
    p = subprocess.Popen([exe] + list(args), cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=_drop, **kw)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    return Run(p.returncode, out, err)


def write(path, data):
    with open(path, "wb") as f: f.write(data)
    os.chmod(path, 0o644)

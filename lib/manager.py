"""Starts, observes and stops a real milter-manager built with sanitizers."""
import os, re, shutil, signal, socket, subprocess, tempfile, time
import build as B
import core

SAN = dict(core.ENV)


def san_env(extra=None, leaks=False):
    e = dict(os.environ)
    e.update(SAN)
    e["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=99:print_stacktrace=1:handle_segv=2:handle_abort=2" % (1 if leaks else 0)
    e.pop("MILTER_LOG_LEVEL", None)
    e.update(extra or {})
    return e


class Manager:
    """one milter-manager process with its own scratch directory"""

    def __init__(self, flavor="asan", log_level=None):
        self.out = B.build(flavor)
        self.dir = tempfile.mkdtemp(prefix="mm")
        self.sock = os.path.join(self.dir, "m.sock")
        self.ctl = os.path.join(self.dir, "ctl.sock")
        self.pid = os.path.join(self.dir, "m.pid")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        # the manager gives up root privileges
        os.chmod(self.dir, 0o777)
        os.chmod(self.tmp, 0o777)
        self.proc = None
        self.log_level = log_level
        self.n = 0
        self.err_text = ""

    def child_sock(self, name):
        return os.path.join(self.dir, name + ".sock")

    def write_config(self, text, extra_files=()):
        base = ('manager.connection_spec = "unix:%s"\n'
                'manager.pid_file = "%s"\n' % (self.sock, self.pid))
        with open(os.path.join(self.dir, "milter-manager.conf"), "w") as f:
            f.write(base + text)
        for name, t in extra_files:
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)

    def env(self, extra=None):
        e = san_env(extra)
        e.update({"MILTER_MANAGER_CONFIGURATION_MODULE_DIR": os.path.join(self.out, "module"),
                  "RUBYLIB": os.environ.get("TREE", "/repo") + "/binding/ruby/lib:" + os.path.join(self.out, "ext"),
                  "VERIF_HEAPSTAT": os.path.join(self.dir, "heap"), "TMPDIR": self.tmp, "LC_ALL": "C.UTF-8"})
        if self.log_level:
            e["MILTER_LOG_LEVEL"] = self.log_level
        return e

    def start(self, args=(), env=None, wait=True):
        self.n += 1
        self.errfile = os.path.join(self.dir, "err%d" % self.n)
        self.proc = subprocess.Popen([os.path.join(self.out, "bin", "milter-manager"), "-c", self.dir] + list(args),
                                     stdin=subprocess.DEVNULL, stdout=open(self.errfile, "ab"),
                                     stderr=subprocess.STDOUT, env=self.env(env), cwd=self.dir,
                                     start_new_session=True)
        if wait:
            self.wait_ready()
        return self

    def wait_ready(self, timeout=60):
        t = time.time()
        while time.time() - t < timeout:
            if self.proc.poll() is not None:
                raise RuntimeError("milter-manager exited %s: %s" % (self.proc.returncode, self.errors()[-3000:]))
            if os.path.exists(self.sock):
                s = socket.socket(socket.AF_UNIX)
                try:
                    s.connect(self.sock)
                    s.close()
                    return
                except OSError:
                    pass
                finally:
                    s.close()
            time.sleep(.02)
        raise RuntimeError("milter-manager did not start: " + self.errors()[-3000:])

    def errors(self):
        try:
            return open(self.errfile, errors="replace").read()
        except OSError:
            return ""

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def fds(self):
        """what the open descriptors of the process are"""
        p = os.path.join(self.dir, "heap.fd")
        try:
            n = os.path.getsize(p)
            self.proc.send_signal(signal.SIGRTMIN + 4)
        except OSError:
            return None
        t = time.time()
        while time.time() - t < 5:
            text = open(p, errors="replace").read()[n:]
            if text.endswith("\n.\n") or text == ".\n":
                return sorted(text.split("\n")[:-2])
            time.sleep(.005)
        return None

    def heap(self):
        """bytes allocated in the process now"""
        p = os.path.join(self.dir, "heap")
        n = os.path.getsize(p)
        self.proc.send_signal(signal.SIGRTMIN + 3)
        t = time.time()
        while time.time() - t < 5:
            if os.path.getsize(p) > n:
                return int(open(p).read().split()[-1])
            time.sleep(.01)
        return None

    def rss_kb(self):
        try:
            for l in open("/proc/%d/status" % self.proc.pid):
                if l.startswith("VmRSS"):
                    return int(l.split()[1])
        except OSError:
            pass
        return 0

    def stop(self, sig=signal.SIGTERM, timeout=30):
        """-> exit status or None if it had to be killed"""
        if self.proc is None:
            return None
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
            try:
                self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.kill()
                return None
        return self.proc.returncode

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()

    def cleanup(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def diagnostics(text):
    """(key, text) for every sanitizer report and GLib critical in the output of a process"""
    out = []
    for m in re.finditer(r"(==\d+==ERROR: AddressSanitizer.*?)(?:\n==\d+==ABORTING|\Z)", text, re.S):
        out.append((core.san_key(m.group(1)), m.group(1)[:3500]))
    for m in re.finditer(r"\S+: runtime error: .*(?:\n    #\d+ .*)*", text):
        out.append((core.san_key(m.group(0)), m.group(0)[:2500]))
    for m in re.finditer(r"^.*-(?:CRITICAL|ERROR) \*\*.*: .*$|^.*(?:GLib|GObject|Gio)\S*-WARNING \*\*.*$", text, re.M):
        l = m.group(0)
        k = re.sub(r"0x[0-9a-f]+|\d+", "N", l.split("**")[-1])[:70]
        out.append(("glib:" + re.sub(r"[^\w:.-]+", "_", k), l[:500]))
    for m in re.finditer(r"\[((?:GLib|GObject|GIO|Gio|GThread)[\w-]*)\] (.*)$", text, re.M):
        # g_timer_continue: statistics of the time a child takes, without effect on behaviour
        if "g_timer_continue" in m.group(2) or "is invalid or out of range for property" in m.group(2) or m.group(2).startswith("MainContext") or "waitid(pid:" in m.group(2):
            # (waitid: a worker inherits the child watches of the workers before it; they are only logged)
            continue
        k = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2))[:70]
        out.append(("glib:" + re.sub(r"[^\w:.-]+", "_", k), m.group(0)[:500]))
    return out

"""Batched access to harness/core_driver."""
import os, subprocess, re
import build as B

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
       "UBSAN_OPTIONS": "print_stacktrace=1", "G_SLICE": "always-malloc", "LC_ALL": "C",
       "G_DEBUG": ""}


def x(b):
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "x" + b.hex()


def unx(s):
    return None if s == "-" else bytes.fromhex(s[1:])


def san_key(err):
    """stable short name of a sanitizer report"""
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"[0-9x]+", "", m.group(1)))[:40] if m else "crash"
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        if "/milter/" in m.group(2) or "/binding/" in m.group(2) or "/libmilter/" in m.group(2) \
                or "/src/" in m.group(2) or "/module/" in m.group(2):
            fn = m.group(1)
            break
    return "%s:%s" % (kind, fn)


class Driver:
    def __init__(self, name="core_driver", flavor="asan"):
        self.out = B.build(flavor)
        self.bin = os.path.join(self.out, "bin", name)
        self.env = dict(os.environ, **ENV)

    def run(self, cases, timeout=240):
        """cases: list of lists of request lines.  -> list of (replies, crash)
        where replies is one list of lines per request and crash is None or
        the text of the crash report (replies is then shorter)."""
        results = []
        todo = list(cases)
        retried = False
        while todo:
            data = "\n".join("\n".join(c) for c in todo) + "\n"
            p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=self.env)
            hang = False
            try:
                out, err = p.communicate(data.encode(), timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                hang = True
            lines = out.decode("latin-1").split("\n")
            replies, cur = [], []
            for l in lines:
                if l == ".":
                    replies.append(cur)
                    cur = []
                elif not l.startswith("[20"):        # log lines
                    cur.append(l)
            i = 0
            done = 0
            for c in todo:
                if i + len(c) <= len(replies):
                    results.append((replies[i:i + len(c)], None))
                    i += len(c)
                    done += 1
                else:
                    break
            if done == len(todo) and p.returncode == 0:
                break
            if done == len(todo):          # died at exit
                raise RuntimeError("driver exit %s: %s" % (p.returncode, err[-2000:]))
            if hang and not retried:
                retried = True
                todo = todo[done:]
                continue
            text = err.decode("latin-1", "replace")
            if hang:
                text = "HANG (no answer within %d s)\n" % timeout + text
            results.append((replies[i:], text or "exit status %s" % p.returncode))
            todo = todo[done + 1:]
            retried = False
        return results

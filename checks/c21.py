"""C21: random programs of timeouts, idles, descriptor and child watches on each event loop, watched by an online oracle."""
import multiprocessing, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import build as B
import core
import manager as M

RULE = ("seed -> programs of timeouts (interval 0 to 60 ms), idles, descriptor watches (conditions, several per descriptor, hangups, reused "
        "descriptor numbers) and child watches that add, remove (themselves, others, twice), sleep, read, write, close and run a nested "
        "loop from inside callbacks x back end (GLib with its own and the default context, libev, libev's default loop)")
BACKENDS = ["glib", "libev", "libev-default"]


def job(a):
    backend, seed, rounds = a
    cmd = [os.path.join(B.build("asan"), "bin", "loop_driver"), backend, str(seed), str(rounds)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=M.san_env({}, leaks=True), stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=700)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        out += b"\nV stuck the program doesn't end\n"
    return a, p.returncode, out.decode("latin-1"), err.decode("latin-1")


def run():
    c = Check("C21", RULE)
    c.assumptions += ["a source is due late when it isn't called in the two iterations that follow its time (in an iteration "
                      "without events for idles)", "child watches are judged 3 s after the child ended",
                      "libev watches children in its default loop only"]
    B.build("asan")
    n = c.n(8, 60)
    jobs = [(b, c.seed * 1000 + i, c.n(20, 60)) for i in range(n) for b in BACKENDS]
    with multiprocessing.get_context("fork").Pool(6) as pool:
        for a, rc, out, err in pool.imap_unordered(job, jobs):
            replay = dict(cmd=["loop_driver"] + [str(i) for i in a])
            seen = False
            for l in out.split("\n"):
                w = l.split(" ", 2)
                if w[0] == "V":
                    seen = True
                    c.violation(w[1], "%s [%s]" % (w[2], " ".join(map(str, a))), replay)
                elif w[0] == "S":
                    c.count(a[0] + "_" + w[1], int(w[2]))
                    if int(w[2]):
                        c.case((a[0], w[1], int(w[2]) // 50))
            for key, text in M.diagnostics(err):
                seen = True
                c.violation(key, text, replay)
            if rc != 0 and not seen:
                c.violation("exit", "the program ended with %r: %s" % (rc, err[-1500:]), replay)
    c.samples = ["%s, seed %d, %d rounds" % j for j in jobs[:10]]
    c.finish()


if __name__ == "__main__":
    main(run)

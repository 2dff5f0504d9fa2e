/* Random programs on an event loop, watched by an online oracle.
 *   loop_driver glib|libev|libev-default SEED ROUNDS
 * Prints "V KEY TEXT" for a broken promise and "S NAME COUNT" at the end. */
#include <milter/core.h>
#include <milter/core/milter-glib-event-loop.h>
#include <milter/core/milter-libev-event-loop.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/wait.h>

enum { TIMER, IDLE, IO, CHILD, NKINDS };
static const char *kind_name[] = { "timer", "idle", "io", "child" };
#define MAGIC 0x5eed1234u

typedef struct {
    guint magic; int kind; guint id; gboolean alive, notify, removed; int notified, calls, left, missed, after_quit;
    gint64 start, last; double interval;
    int pair, side; GIOCondition cond; GIOChannel *ch;
    GPid pid; int status; gint64 exits;
    guint added, called;             /* iterations */
    gboolean must;
} Src;
typedef struct { int fd[2]; guint touched; gboolean open[2]; } Pair;

#define NPAIRS 4
static Pair pairs[NPAIRS];
static MilterEventLoop *loop;
static GPtrArray *srcs;
static guint iter, calls_iter, others_iter, alive_count;
static gboolean isdefault, isglib, teardown, nested, phase2, ran_nested;
static int quit_called, idle_after_quit, bad_count;
static guint64 st_timer, st_idle, st_io, st_child, st_removed, st_iter, st_notify, st_quit, st_nested, st_self, st_zero, st_hup;
static guint64 seed_state;
static const char *backend;

static guint rnd (guint n)
{
    seed_state = seed_state * 6364136223846793005ULL + 1442695040888963407ULL;
    return n ? (guint)((seed_state >> 33) % n) : 0;
}
static gint64 now (void) { return g_get_monotonic_time(); }
static void bad (const char *key, const char *fmt, ...)
{
    va_list a;
    if (bad_count++ > 30) return;
    va_start(a, fmt);
    printf("V %s ", key); vprintf(fmt, a); printf(" (%s, iteration %u)\n", backend, iter);
    va_end(a);
    fflush(stdout);
}

static void add_random (void);
static void act (Src *self);

static void on_notify (gpointer data)
{
    Src *s = data;
    if (s->magic != MAGIC) { bad("data", "destroy notification with foreign data %p", data); return; }
    s->notified++;
    st_notify++;
    if (s->notified > 1) bad("notify-twice", "%s %u: destroyed %d times", kind_name[s->kind], s->id, s->notified);
    if (s->alive && !teardown) bad("notify-early", "%s %u: destroyed while alive", kind_name[s->kind], s->id);
}

static gboolean called (Src *s, int kind)
{
    if (s->magic != MAGIC) { bad("data", "%s callback with foreign data", kind_name[kind]); return FALSE; }
    if (s->kind != kind) bad("data", "%s callback with the data of a %s", kind_name[kind], kind_name[s->kind]);
    if (!s->alive) bad("called-removed", "%s %u is called after it was removed", kind_name[kind], s->id);
    if (teardown) bad("called-removed", "%s %u is called by destruction", kind_name[kind], s->id);
    s->calls++;
    s->called = iter;
    s->missed = 0;
    calls_iter++;
    if (kind != IDLE) others_iter++;
    return TRUE;
}

/* the end of a callback */
static gboolean again (Src *s)
{
    if (!s->alive) return rnd(2);            /* removed itself: what it returns is irrelevant */
    if (--s->left > 0) return TRUE;
    s->alive = FALSE;
    return FALSE;
}

static gboolean on_timer (gpointer data)
{
    Src *s = data;
    gint64 t = now(), due;
    if (!called(s, TIMER)) return FALSE;
    st_timer++;
    if (s->interval == 0) st_zero++;
    due = s->start + (gint64)(s->calls * s->interval * 1e6);
    /* glib counts in milliseconds */
    if (t < due - 1000 * (isglib ? s->calls + 1 : 1))
        bad("early", "timer %u: call %d of interval %g comes %g s after the start", s->id, s->calls, s->interval, (t - s->start) / 1e6);
    s->last = t;
    act(s);
    return again(s);
}
static gboolean on_idle (gpointer data)
{
    Src *s = data;
    if (!called(s, IDLE)) return FALSE;
    st_idle++;
    if (phase2 && quit_called) idle_after_quit = MAX(idle_after_quit, ++s->after_quit);
    act(s);
    return again(s);
}
static gboolean ready (int fd, short ev)
{
    struct pollfd p = { fd, ev, 0 };
    return poll(&p, 1, 0) > 0 && (p.revents & (ev | POLLERR | POLLHUP | POLLNVAL));
}
static gboolean on_io (GIOChannel *ch, GIOCondition cond, gpointer data)
{
    Src *s = data;
    int fd;
    char buf[70000];
    if (!called(s, IO)) return FALSE;
    st_io++;
    fd = pairs[s->pair].fd[s->side];
    if (ch != s->ch || g_io_channel_unix_get_fd(ch) != fd)
        bad("data", "io %u: called with another channel", s->id);
    /* GLib dispatches a source that was ready before an inner loop ran, even if it isn't any more */
    if (ran_nested && phase2 && isglib && !cond) return TRUE;
    if (!(cond & (s->cond | G_IO_ERR | G_IO_HUP | G_IO_NVAL)) || (cond & ~(s->cond | G_IO_ERR | G_IO_HUP | G_IO_NVAL)))
        bad("condition", "io %u: wants %x, gets %x", s->id, s->cond, cond);
    if (pairs[s->pair].touched != iter) {
        if ((cond & G_IO_IN) && !ready(fd, POLLIN)) bad("condition", "io %u: nothing to read", s->id);
        if ((cond & G_IO_OUT) && !ready(fd, POLLOUT)) bad("condition", "io %u: can't be written", s->id);
        if ((cond & (G_IO_HUP | G_IO_ERR | G_IO_NVAL)) && !ready(fd, 0) && isglib) bad("condition", "io %u: no hangup", s->id);
        if ((cond & G_IO_HUP) && isglib) st_hup++;
    }
    if ((cond & G_IO_IN) && rnd(5) < 3) {
        ssize_t n = read(fd, buf, rnd(2) ? sizeof buf : 1 + rnd(100));
        (void)n;
        pairs[s->pair].touched = iter;
    }
    if ((cond & G_IO_OUT) && rnd(3) == 0) {
        ssize_t n = send(fd, buf, 1 + rnd(rnd(3) ? 100 : 65000), MSG_NOSIGNAL | MSG_DONTWAIT);
        (void)n;
        pairs[s->pair].touched = iter;
    }
    act(s);
    return again(s);
}
static void on_child (GPid pid, gint status, gpointer data)
{
    Src *s = data;
    if (!called(s, CHILD)) return;
    st_child++;
    if (pid != s->pid) bad("child", "child %d: called for %d", (int)s->pid, (int)pid);
    if (WIFEXITED(status) ? s->status != WEXITSTATUS(status) : -WTERMSIG(status) != s->status)
        bad("child", "child %d: status %x, ended with %d", (int)pid, status, s->status);
    if (s->calls > 1) bad("child", "child %d: called twice", (int)pid);
    if (!s->alive) return;
    s->left = 1;
    act(s);
    s->alive = FALSE;
}

static Src *src_new (int kind)
{
    Src *s = g_new0(Src, 1);
    s->magic = MAGIC; s->kind = kind; s->alive = TRUE; s->notify = rnd(4) != 0;
    s->added = iter;
    s->left = rnd(4) == 0 ? 1 : 1 + (int)rnd(30);
    g_ptr_array_add(srcs, s);
    return s;
}
static void added (Src *s)
{
    guint i;
    alive_count++;
    if (!s->id) bad("id", "%s: no id", kind_name[s->kind]);
    for (i = 0; i < srcs->len; i++) {
        Src *o = srcs->pdata[i];
        if (o != s && o->alive && o->id == s->id) bad("id", "%s and %s both have the id %u", kind_name[o->kind], kind_name[s->kind], s->id);
    }
}
static Src *add_timer (double interval, int left)
{
    Src *s = src_new(TIMER);
    s->interval = interval;
    if (left) s->left = left;
    s->start = s->last = now();
    if (s->notify || rnd(2)) {
        s->id = milter_event_loop_add_timeout_full(loop, G_PRIORITY_DEFAULT, interval, on_timer, s, s->notify ? on_notify : NULL);
    } else
        s->id = milter_event_loop_add_timeout(loop, interval, on_timer, s);
    added(s);
    return s;
}
static Src *add_idle (int left)
{
    Src *s = src_new(IDLE);
    if (left) s->left = left;
    if (s->notify) s->id = milter_event_loop_add_idle_full(loop, G_PRIORITY_DEFAULT_IDLE, on_idle, s, on_notify);
    else s->id = milter_event_loop_add_idle(loop, on_idle, s);
    added(s);
    return s;
}
static Src *add_io (int p, int side, GIOCondition cond)
{
    Src *s;
    if (!pairs[p].open[side]) return NULL;
    s = src_new(IO);
    s->pair = p; s->side = side; s->cond = cond;
    s->ch = g_io_channel_unix_new(pairs[p].fd[side]);
    if (s->notify) s->id = milter_event_loop_watch_io_full(loop, G_PRIORITY_DEFAULT, s->ch, cond, on_io, s, on_notify);
    else s->id = milter_event_loop_watch_io(loop, s->ch, cond, on_io, s);
    g_io_channel_unref(s->ch);
    added(s);
    return s;
}
static Src *add_child (void)
{
    Src *s = src_new(CHILD);
    int ms = rnd(3) ? (int)rnd(30) : 0, code = (int)rnd(256), kills = rnd(4) == 0;
    s->status = kills ? -SIGKILL : code;
    s->left = 1;
    fflush(stdout);
    s->pid = fork();
    if (s->pid == 0) {
        if (ms) usleep(ms * 1000);
        if (kills) kill(getpid(), SIGKILL);
        _exit(code);
    }
    s->exits = now() + ms * 1000;
    if (s->notify) s->id = milter_event_loop_watch_child_full(loop, G_PRIORITY_DEFAULT, s->pid, on_child, s, on_notify);
    else s->id = milter_event_loop_watch_child(loop, s->pid, on_child, s);
    added(s);
    return s;
}
static void add_random (void)
{
    static const GIOCondition conds[] = { G_IO_IN, G_IO_OUT, G_IO_IN | G_IO_OUT, G_IO_IN | G_IO_HUP,
                                          G_IO_IN | G_IO_PRI | G_IO_ERR | G_IO_HUP | G_IO_NVAL, G_IO_OUT | G_IO_ERR };
    guint k = rnd(100);
    if (k < 40) add_timer(rnd(6) == 0 ? 0 : (1 + rnd(rnd(2) ? 10 : 60)) / 1000.0, 0);
    else if (k < 60) add_idle(0);
    else if (k < 90) add_io(rnd(NPAIRS), rnd(2), conds[rnd(6)]);
    else if (isglib || isdefault) add_child();
}

static void remove_src (Src *s)
{
    gboolean was = s->alive, ok;
    s->alive = FALSE;
    s->removed = TRUE;
    ok = milter_event_loop_remove(loop, s->id);
    if (was) st_removed++;
    if (ok != was) bad("remove", "%s %u: remove returns %d, it was %s", kind_name[s->kind], s->id, ok, was ? "alive" : "gone");
    if (was && !isglib && s->notify && s->notified != 1)
        ;                                    /* judged at the end of the iteration */
}
static Src *pick (void)
{
    return srcs->len ? srcs->pdata[rnd(srcs->len)] : NULL;
}
static gboolean watched (int p)
{
    guint i;
    for (i = 0; i < srcs->len; i++) {
        Src *s = srcs->pdata[i];
        if (s->kind == IO && s->pair == p && s->alive) return TRUE;
    }
    return FALSE;
}
static void open_pair (int p)
{
    int i;
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, pairs[p].fd)) abort();
    for (i = 0; i < 2; i++) pairs[p].open[i] = TRUE;
    pairs[p].touched = iter;
}
static void renew (int p)
{
    int i;
    if (watched(p)) return;
    for (i = 0; i < 2; i++) if (pairs[p].open[i]) close(pairs[p].fd[i]);
    open_pair(p);
}
static gboolean end_nested (gpointer data)
{
    milter_event_loop_quit(loop);
    return FALSE;
}
static void act (Src *self)
{
    static char buf[65536];
    guint k = rnd(100), i;
    Src *o;
    int p = rnd(NPAIRS);
    if (k < 40) return;
    if (k < 50) g_usleep(rnd(rnd(3) ? 3000 : 15000));
    else if (k < 62) { if ((o = pick()) && o != self) remove_src(o); }
    else if (k < 66) {
        if (self->alive) { remove_src(self); st_self++; }
    }
    else if (k < 82) { if (alive_count < 60) add_random(); }
    else if (k < 90) {
        int side = rnd(2);
        if (pairs[p].open[side]) {
            ssize_t n = send(pairs[p].fd[side], buf, 1 + rnd(2000), MSG_NOSIGNAL | MSG_DONTWAIT);
            (void)n; pairs[p].touched = iter;
        }
    }
    else if (k < 93) renew(p);
    else if (k < 95) {
        gboolean used = FALSE;
        int side = rnd(2);
        for (i = 0; i < srcs->len; i++) {
            o = srcs->pdata[i];
            if (o->kind == IO && o->alive && o->pair == p && o->side == side) used = TRUE;
        }
        if (!used && pairs[p].open[side]) { close(pairs[p].fd[side]); pairs[p].open[side] = FALSE; pairs[p].touched = iter; }
    }
    else if (k < 97) {
        /* other sources by the same data or ids that never were */
        if (milter_event_loop_remove(loop, 0x7fffffffu - rnd(1000))) bad("remove", "a source that never was is removed");
    }
    else if (k < 98 && phase2 && !nested && !quit_called) {
        nested = ran_nested = TRUE; st_nested++;
        milter_event_loop_add_timeout(loop, rnd(5) / 1000.0, end_nested, NULL);
        milter_event_loop_run(loop);
        nested = FALSE;
        if (!milter_event_loop_is_running(loop)) bad("quit", "quitting the inner loop quits the outer one");
    }
}

static gint64 due_of (Src *s) { return s->last + (gint64)(s->interval * 1e6); }

static void step (gboolean may_block)
{
    guint i, n;
    gboolean ret, idle = FALSE;
    gint64 t0, t1, first = G_MAXINT64;
    Src *s;

    iter++; st_iter++;
    calls_iter = others_iter = 0;
    n = srcs->len;
    alive_count = 0;
    t0 = now();
    for (i = 0; i < n; i++) {
        s = srcs->pdata[i];
        if (!s->alive) { s->must = FALSE; continue; }
        alive_count++;
        s->must = FALSE;
        switch (s->kind) {
        case TIMER: s->must = due_of(s) < t0 - 5000; if (due_of(s) < first) first = due_of(s); break;
        case IDLE: s->must = idle = TRUE; first = 0; break;
        case IO: {
            int fd = pairs[s->pair].fd[s->side];
            s->must = ((s->cond & G_IO_IN) && ready(fd, POLLIN)) || ((s->cond & G_IO_OUT) && ready(fd, POLLOUT));
            if (s->must) first = 0;
            break; }
        default:
            s->must = FALSE;
            if (now() > s->exits + 3000000) bad("child", "child %d: the watch isn't called", (int)s->pid);
        }
    }
    if (may_block && first > t0 + 200000) {
        add_timer(.01, 2);
        first = t0 + 10000;
    }
    alarm(30);
    ret = milter_event_loop_iterate(loop, may_block);
    t1 = now();
    if (calls_iter && !ret) bad("iterate", "iterate returns FALSE after %u callbacks", calls_iter);
    if (may_block && first < G_MAXINT64 && !calls_iter && t1 > MAX(first, t0) + 1000000)
        bad("late", "an iteration waits until %g s after the first source is due", (t1 - MAX(first, t0)) / 1e6);
    for (i = 0; i < n; i++) {
        s = srcs->pdata[i];
        if (!s->must || !s->alive || s->called == iter) continue;
        if (s->kind == IDLE) {
            /* events of the loop's own (a SIGCHLD, say) may come first */
            if (!others_iter && ++s->missed >= 4)
                bad("idle", "idle %u isn't called in four iterations without events", s->id), s->missed = -1000000;
            continue;
        }
        if (s->kind == IO) {
            int fd = pairs[s->pair].fd[s->side];
            if (pairs[s->pair].touched == iter) continue;
            if (!((s->cond & G_IO_IN) && ready(fd, POLLIN)) && !((s->cond & G_IO_OUT) && ready(fd, POLLOUT))) continue;
        }
        if (++s->missed >= 2)
            bad(s->kind == IO ? "io" : "late", "%s %u isn't called though it's due (interval %g, condition %x)", kind_name[s->kind], s->id,
                s->interval, s->cond), s->missed = -1000000;
    }
    (void)idle;
    for (i = 0; i < srcs->len; i++) {
        s = srcs->pdata[i];
        if (!s->alive && s->notify && s->notified != 1)
            bad("notify", "%s %u: ended, but destroyed %d times", kind_name[s->kind], s->id, s->notified), s->notify = FALSE;
        if (!s->notify && s->notified && s->notified != 1) bad("notify", "%s %u: destroyed %d times", kind_name[s->kind], s->id, s->notified);
    }
}

static gboolean quitter (gpointer data)
{
    if (nested) return TRUE;
    if (!milter_event_loop_is_running(loop)) bad("quit", "a running loop says it isn't");
    milter_event_loop_quit(loop);
    quit_called++;
    return FALSE;
}
static void run_phase (void)
{
    gint64 t0 = now(), t1;
    int ms = rnd(20);
    phase2 = TRUE; ran_nested = FALSE; quit_called = idle_after_quit = 0;
    add_idle(1000000);
    if (rnd(2)) milter_event_loop_add_timeout(loop, ms / 1000.0, quitter, NULL);
    else { ms = 0; milter_event_loop_add_idle(loop, quitter, NULL); }
    alarm(60);
    milter_event_loop_run(loop);
    t1 = now();
    phase2 = FALSE;
    st_quit++;
    if (!quit_called) bad("quit", "run returns without quit");
    if (t1 < t0 + ms * 1000 - 1000) bad("early", "the quitting timer comes early");
    if (idle_after_quit > 2) bad("quit", "an idle callback is called %d times after quit", idle_after_quit);
    if (milter_event_loop_is_running(loop)) bad("quit", "a loop that was quit says it's running");
}

/* a watch that asks for nothing but errors */
static gboolean on_error_watch (GIOChannel *ch, GIOCondition cond, gpointer data) { ++*(int *)data; return FALSE; }
static void error_watch (void)
{
    int fd[2], hits = 0, i;
    GIOChannel *ch;
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) abort();
    ch = g_io_channel_unix_new(fd[0]);
    milter_event_loop_watch_io(loop, ch, G_IO_ERR | G_IO_HUP | G_IO_NVAL, on_error_watch, &hits);
    g_io_channel_unref(ch);
    for (i = 0; i < 3; i++) milter_event_loop_iterate(loop, FALSE);
    if (hits) bad("condition", "a watch for errors is called without one");
    close(fd[1]);
    for (i = 0; i < 10 && !hits; i++) { milter_event_loop_iterate(loop, FALSE); g_usleep(1000); }
    if (!hits) bad("error-watch", "a watch for G_IO_ERR | G_IO_HUP | G_IO_NVAL isn't called on a hangup");
    /* (the descriptor has to outlive the loop's watch) */
    dup2(open("/dev/null", O_RDONLY), fd[0]);
}

static void on_alarm (int sig)
{
    static const char text[] = "V stuck an iteration doesn't end\n";
    ssize_t n = write(1, text, sizeof text - 1);
    (void)n;
    _exit(3);
}

static void round_ (int r)
{
    guint i;
    int k, steps;
    gboolean own = TRUE;
    GMainContext *context;
    srcs = g_ptr_array_new();
    iter = 1;
    if (isglib) {
        own = rnd(2);
        context = own ? g_main_context_new() : NULL;
        loop = milter_glib_event_loop_new(context);
        if (own) g_main_context_unref(context);
    }
    else if (isdefault) loop = milter_libev_event_loop_default();
    else loop = milter_libev_event_loop_new();
    for (k = 0; k < NPAIRS; k++) open_pair(k);
    if (r == 0) error_watch();
    if (rnd(3) == 0) g_usleep(rnd(20000));
    for (k = 3 + rnd(15); k > 0; k--) add_random();
    for (steps = 40 + rnd(120); steps > 0; steps--) {
        if (rnd(10) == 0) add_random();
        if (rnd(20) == 0) { Src *s = pick(); if (s) remove_src(s); }
        if (rnd(15) == 0) g_usleep(rnd(8000));
        step(rnd(4) != 0);
    }
    run_phase();
    /* what is left */
    for (i = 0; i < srcs->len; i++) {
        Src *s = srcs->pdata[i];
        /* (the default context of glib outlives the loop) */
        if (s->alive && (!own || rnd(2))) remove_src(s);
        else if (!s->alive && rnd(8) == 0) remove_src(s);
    }
    teardown = TRUE;
    g_object_unref(loop);
    teardown = FALSE;
    for (i = 0; i < srcs->len; i++) {
        Src *s = srcs->pdata[i];
        if (s->notify && s->notified != 1)
            bad("notify", "%s %u: destroyed %d times at the end of the loop", kind_name[s->kind], s->id, s->notified);
        s->magic = 0;
    }
    for (i = 0; i < srcs->len; i++) g_free(srcs->pdata[i]);
    g_ptr_array_free(srcs, TRUE);
    for (k = 0; k < NPAIRS; k++) for (i = 0; i < 2; i++) if (pairs[k].open[i]) close(pairs[k].fd[i]);
    while (waitpid(-1, NULL, WNOHANG) > 0) ;
}

int main (int argc, char **argv)
{
    int r;
    milter_init();
    backend = argv[1];
    isglib = !strcmp(backend, "glib");
    isdefault = !strcmp(backend, "libev-default");
    seed_state = g_ascii_strtoull(argv[2], NULL, 10) * 2654435761ULL + 12345;
    signal(SIGALRM, on_alarm);
    signal(SIGPIPE, SIG_IGN);
    for (r = 0; r < atoi(argv[3]); r++) round_(r);
    alarm(0);
    printf("S timers %" G_GUINT64_FORMAT "\nS idles %" G_GUINT64_FORMAT "\nS ios %" G_GUINT64_FORMAT "\nS children %" G_GUINT64_FORMAT "\n",
           st_timer, st_idle, st_io, st_child);
    printf("S removed %" G_GUINT64_FORMAT "\nS notifications %" G_GUINT64_FORMAT "\nS iterations %" G_GUINT64_FORMAT "\nS quits %"
           G_GUINT64_FORMAT "\nS nested %" G_GUINT64_FORMAT "\nS self_removals %" G_GUINT64_FORMAT "\nS zero_intervals %" G_GUINT64_FORMAT
           "\nS hangups %" G_GUINT64_FORMAT "\n",
           st_removed, st_notify, st_iter, st_quit, st_nested, st_self, st_zero, st_hup);
    milter_quit();
    return 0;
}

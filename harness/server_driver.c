/* Drives milters through the server library as a plan says and logs what the
 * library tells: "E SESSION MS EVENT ARGS", "I SESSION MS COMMAND OK".
 *   server_driver PLAN glib|libev CONCURRENT
 * PLAN:
 *   S SPEC CONNECTION WRITING READING EOM       a session and its timeouts
 *   D STAGE NAME VALUE...                       macros of a stage, with the next command
 *   C DELAY ANSWERS NAME ARGS...                a command, DELAY ms (-1: at once) after
 *                                               the answers to the one before */
#include <milter/server.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/un.h>

typedef struct { char **w; int n; int delay, answers; GPtrArray *macros; } Cmd;
typedef struct {
    int index; char *spec; double t[4];
    GPtrArray *cmds; guint next; int waiting; gboolean over, stopped; guint timer;
    MilterServerContext *c;
} Session;

static GPtrArray *sessions; static guint next_session, running;
static MilterEventLoop *loop;
static double worst; static gint64 last_tick;

static char *hex (const char *s, gsize *len)
{
    gsize n, i; char *r; gsize dummy;
    if (!len) len = &dummy;
    *len = 0;
    if (!s || s[0] != 'x') return NULL;
    s++; n = strlen(s) / 2; r = g_malloc(n + 1);
    for (i = 0; i < n; i++) r[i] = g_ascii_xdigit_value(s[2 * i]) << 4 | g_ascii_xdigit_value(s[2 * i + 1]);
    r[n] = 0; *len = n;
    return r;
}
static double now (void) { return g_get_monotonic_time() / 1000.0; }
static void puth (const char *s, gsize n)
{ gsize i; printf(" x"); for (i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]); }
static void puts_ (const char *s) { if (s) puth(s, strlen(s)); else printf(" -"); }
static void ev (Session *s, const char *name) { printf("E %d %.0f %s", s->index, now(), name); }
static void nl (void) { printf("\n"); fflush(stdout); }

static void start_more (void);
static void advance (Session *s);

static gboolean cb_free (gpointer u)
{
    Session *s = u; MilterServerContext *c = s->c;
    s->c = NULL;
    g_object_unref(c);
    ev(s, "end"); nl();
    running--;
    start_more();
    return FALSE;
}
static void end (Session *s)
{
    if (s->over) return;
    s->over = TRUE;
    if (s->timer) { milter_event_loop_remove(loop, s->timer); s->timer = 0; }
    milter_event_loop_add_idle(loop, cb_free, s);
}

static void issue (Session *s)
{
    Cmd *m = g_ptr_array_index(s->cmds, s->next++); gboolean ok = FALSE; guint i; gsize l;
    MilterServerContext *c = s->c; const char *n = m->w[0];
    char *a = m->n > 1 ? hex(m->w[1], NULL) : NULL;
    if (m->macros) for (i = 0; i < m->macros->len; i++) {
        char **w = g_ptr_array_index(m->macros, i); int j;
        GHashTable *t = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
        for (j = 2; w[j] && w[j + 1]; j += 2) g_hash_table_insert(t, hex(w[j], NULL), hex(w[j + 1], NULL));
        milter_protocol_agent_set_macros_hash_table(MILTER_PROTOCOL_AGENT(c), w[1][0], t);
        g_hash_table_unref(t);
    }
    s->waiting = m->answers;
    printf("I %d %.0f %s\n", s->index, now(), n);
    if (!strcmp(n, "neg")) {
        MilterOption *o = milter_option_new(atoi(m->w[1]), strtoul(m->w[2], NULL, 0), strtoul(m->w[3], NULL, 0));
        ok = milter_server_context_negotiate(c, o);
        g_object_unref(o);
    } else if (!strcmp(n, "conn")) {
        struct sockaddr_in in; struct sockaddr_in6 in6; struct sockaddr_un un; struct sockaddr sa;
        struct sockaddr *p = NULL; socklen_t len = 0; char *addr = hex(m->w[4], NULL);
        memset(&in, 0, sizeof in); memset(&in6, 0, sizeof in6); memset(&un, 0, sizeof un); memset(&sa, 0, sizeof sa);
        switch (m->w[2][0]) {
        case '4': in.sin_family = AF_INET; in.sin_port = htons(atoi(m->w[3])); inet_pton(AF_INET, addr, &in.sin_addr);
            p = (struct sockaddr *)&in; len = sizeof in; break;
        case '6': in6.sin6_family = AF_INET6; in6.sin6_port = htons(atoi(m->w[3])); inet_pton(AF_INET6, addr, &in6.sin6_addr);
            p = (struct sockaddr *)&in6; len = sizeof in6; break;
        case 'L': un.sun_family = AF_UNIX; strcpy(un.sun_path, addr); p = (struct sockaddr *)&un; len = sizeof un; break;
        default: sa.sa_family = AF_UNSPEC; p = &sa; len = sizeof sa; break;
        }
        ok = milter_server_context_connect(c, a, p, len);
        g_free(addr);
    } else if (!strcmp(n, "helo")) ok = milter_server_context_helo(c, a);
    else if (!strcmp(n, "mail")) ok = milter_server_context_envelope_from(c, a);
    else if (!strcmp(n, "rcpt")) ok = milter_server_context_envelope_recipient(c, a);
    else if (!strcmp(n, "data")) ok = milter_server_context_data(c);
    else if (!strcmp(n, "unknown")) ok = milter_server_context_unknown(c, a);
    else if (!strcmp(n, "hdr")) { char *v = hex(m->w[2], NULL); ok = milter_server_context_header(c, a, v); g_free(v); }
    else if (!strcmp(n, "eoh")) ok = milter_server_context_end_of_header(c);
    else if (!strcmp(n, "body")) { char *b = hex(m->w[1], &l); ok = milter_server_context_body(c, b, l); g_free(b); }
    else if (!strcmp(n, "eom")) { char *b = hex(m->w[1], &l); ok = milter_server_context_end_of_message(c, l ? b : NULL, l); g_free(b); }
    else if (!strcmp(n, "abort")) ok = milter_server_context_abort(c);
    else if (!strcmp(n, "quit")) ok = milter_server_context_quit(c);
    else if (!strcmp(n, "shutdown")) { milter_agent_shutdown(MILTER_AGENT(c)); ok = TRUE; }
    g_free(a);
    if (!ok) { printf("F %d %.0f %s", s->index, now(), n); nl(); }
}
static gboolean cb_issue (gpointer u) { Session *s = u; s->timer = 0; issue(s); advance(s); return FALSE; }
/* goes on as far as possible */
static void advance (Session *s)
{
    static int depth;
    while (!s->over && !s->stopped && !s->timer && s->waiting <= 0 && s->next < s->cmds->len) {
        Cmd *m = g_ptr_array_index(s->cmds, s->next);
        if (m->delay < 0 && depth < 20) { depth++; issue(s); depth--; }
        else s->timer = milter_event_loop_add_timeout(loop, MAX(m->delay, 0) / 1000.0, cb_issue, s);
    }
}
static void answered (Session *s)
{
    if (s->waiting <= 0) return;
    if (--s->waiting == 0) advance(s);
}

#define PLAIN(fn, name, what) static void fn (MilterServerContext *c, gpointer u) { Session *s = u; ev(s, name); nl(); what; }
PLAIN(on_ready, "ready", advance(s))
PLAIN(on_continue, "continue", answered(s))
PLAIN(on_tempfail, "tempfail", answered(s))
PLAIN(on_reject, "reject", answered(s))
PLAIN(on_accept, "accept", answered(s))
PLAIN(on_discard, "discard", answered(s))
PLAIN(on_skip, "skip", answered(s))
PLAIN(on_connfail, "connfail", answered(s))
PLAIN(on_shutdown, "shutdown", answered(s))
PLAIN(on_progress, "progress", )
PLAIN(on_connection_timeout, "connection-timeout", s->stopped = TRUE; end(s))
PLAIN(on_writing_timeout, "writing-timeout", s->stopped = TRUE)
PLAIN(on_reading_timeout, "reading-timeout", s->stopped = TRUE)
PLAIN(on_eom_timeout, "eom-timeout", s->stopped = TRUE)
PLAIN(on_finished, "finished", end(s))
static void on_negotiate (MilterServerContext *c, MilterOption *o, MilterMacrosRequests *r, gpointer u)
{ Session *s = u; ev(s, "negotiated"); printf(" %u %u %u", milter_option_get_version(o), milter_option_get_action(o), milter_option_get_step(o)); nl(); answered(s); }
static void on_reply_code (MilterServerContext *c, guint code, const char *x, const char *m, gpointer u)
{ Session *s = u; ev(s, "reply-code"); printf(" %u", code); puts_(x); puts_(m); nl(); answered(s); }
static void on_add_header (MilterServerContext *c, const char *n, const char *v, gpointer u)
{ ev(u, "addh"); puts_(n); puts_(v); nl(); }
static void on_insert_header (MilterServerContext *c, guint i, const char *n, const char *v, gpointer u)
{ ev(u, "insh"); printf(" %u", i); puts_(n); puts_(v); nl(); }
static void on_change_header (MilterServerContext *c, const char *n, guint i, const char *v, gpointer u)
{ ev(u, "chgh"); puts_(n); printf(" %u", i); puts_(v); nl(); }
static void on_delete_header (MilterServerContext *c, const char *n, guint i, gpointer u)
{ ev(u, "delh"); puts_(n); printf(" %u", i); nl(); }
static void on_change_from (MilterServerContext *c, const char *f, const char *p, gpointer u)
{ ev(u, "from"); puts_(f); puts_(p); nl(); }
static void on_add_recipient (MilterServerContext *c, const char *f, const char *p, gpointer u)
{ ev(u, "addr"); puts_(f); puts_(p); nl(); }
static void on_delete_recipient (MilterServerContext *c, const char *f, gpointer u)
{ ev(u, "delr"); puts_(f); nl(); }
static void on_replace_body (MilterServerContext *c, const char *b, gsize n, gpointer u)
{ ev(u, "body"); puth(b, n); nl(); }
static void on_quarantine (MilterServerContext *c, const char *f, gpointer u)
{ ev(u, "quar"); puts_(f); nl(); }
static void on_error (MilterErrorEmittable *e, GError *error, gpointer u)
{
    Session *s = u; MilterReader *r = NULL;
    ev(s, "error"); printf(" %s %d", g_quark_to_string(error->domain), error->code); puts_(error->message); nl();
    if (error->domain == MILTER_SERVER_CONTEXT_ERROR && error->code == MILTER_SERVER_CONTEXT_ERROR_CONNECTION_FAILURE) end(s);
    (void)r;
}
static void on_processed (MilterServerContext *c, MilterMessageResult *r, gpointer u)
{ Session *s = u; printf("P %d %.0f %d", s->index, now(), milter_message_result_get_status(r)); nl(); }

static void start (Session *s)
{
    GError *e = NULL; MilterServerContext *c = milter_server_context_new();
    s->c = c;
    milter_agent_set_event_loop(MILTER_AGENT(c), loop);
    milter_server_context_set_name(c, "peer");
    milter_server_context_set_connection_timeout(c, s->t[0]);
    milter_server_context_set_writing_timeout(c, s->t[1]);
    milter_server_context_set_reading_timeout(c, s->t[2]);
    milter_server_context_set_end_of_message_timeout(c, s->t[3]);
#define ON(name, fn) g_signal_connect(c, name, G_CALLBACK(fn), s)
    ON("ready", on_ready); ON("negotiate-reply", on_negotiate); ON("continue", on_continue); ON("reply-code", on_reply_code);
    ON("temporary-failure", on_tempfail); ON("reject", on_reject); ON("accept", on_accept); ON("discard", on_discard);
    ON("add-header", on_add_header); ON("insert-header", on_insert_header); ON("change-header", on_change_header);
    ON("delete-header", on_delete_header); ON("change-from", on_change_from); ON("add-recipient", on_add_recipient);
    ON("delete-recipient", on_delete_recipient); ON("replace-body", on_replace_body); ON("progress", on_progress);
    ON("quarantine", on_quarantine); ON("connection-failure", on_connfail); ON("shutdown", on_shutdown); ON("skip", on_skip);
    ON("connection-timeout", on_connection_timeout); ON("writing-timeout", on_writing_timeout);
    ON("reading-timeout", on_reading_timeout); ON("end-of-message-timeout", on_eom_timeout);
    ON("error", on_error); ON("finished", on_finished); ON("message-processed", on_processed);
    running++;
    printf("I %d %.0f establish\n", s->index, now());
    if (!milter_server_context_set_connection_spec(c, s->spec, &e) || !milter_server_context_establish_connection(c, &e)) {
        ev(s, "unreachable"); puts_(e ? e->message : NULL); nl();
        g_clear_error(&e);
        end(s);
    }
}
static guint limit;
static void start_more (void)
{
    while (running < limit && next_session < sessions->len) start(g_ptr_array_index(sessions, next_session++));
    if (!running && next_session >= sessions->len) milter_event_loop_quit(loop);
}
static gboolean cb_start (gpointer u) { start_more(); return FALSE; }
static gboolean cb_tick (gpointer u)
{
    gint64 t = g_get_monotonic_time(); double d = (t - last_tick) / 1000.0 - 20;
    if (d > worst) worst = d;
    last_tick = t;
    return TRUE;
}

int main (int argc, char **argv)
{
    static char **lines; static GPtrArray *keep; char *text; int i; Session *s = NULL; GPtrArray *macros = NULL; guint tick;
    if (argc < 4 || !g_file_get_contents(argv[1], &text, NULL, NULL)) return 2;
    milter_init(); milter_server_init();
    sessions = g_ptr_array_new(); keep = g_ptr_array_new(); limit = atoi(argv[3]);
    lines = g_strsplit(text, "\n", -1);
    for (i = 0; lines[i]; i++) {
        char **w = g_strsplit(lines[i], " ", -1); int j;
        g_ptr_array_add(keep, w);
        if (!w[0]) continue;
        if (w[0][0] == 'S') {
            s = g_new0(Session, 1); s->index = sessions->len; s->spec = w[1];
            for (j = 0; j < 4; j++) s->t[j] = g_ascii_strtod(w[2 + j], NULL);
            s->cmds = g_ptr_array_new(); g_ptr_array_add(sessions, s); macros = NULL;
        } else if (w[0][0] == 'D') { if (!macros) macros = g_ptr_array_new(); g_ptr_array_add(macros, w); }
        else if (w[0][0] == 'C') {
            Cmd *c = g_new0(Cmd, 1);
            c->delay = atoi(w[1]); c->answers = atoi(w[2]); c->w = w + 3; c->n = g_strv_length(w + 3);
            c->macros = macros; macros = NULL;
            g_ptr_array_add(s->cmds, c);
        }
    }
    g_free(text);
    loop = !strcmp(argv[2], "libev") ? milter_libev_event_loop_new() : milter_glib_event_loop_new(NULL);
    last_tick = g_get_monotonic_time();
    tick = milter_event_loop_add_timeout(loop, 0.02, cb_tick, NULL);
    milter_event_loop_add_idle(loop, cb_start, NULL);
    milter_event_loop_run(loop);
    milter_event_loop_remove(loop, tick);
    g_object_unref(loop);
    printf("W %.0f\n", worst); fflush(stdout);
    milter_server_quit(); milter_quit();
    return 0;
}

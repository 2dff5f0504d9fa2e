/* A milter on the client library that does what a plan says and logs every
 * callback: "E SESSION EVENT ARGS | MACROS", "R SESSION OP OK ERRORCODE". */
#define _GNU_SOURCE
#include <milter/client.h>
#include <signal.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include "common_plan.h"

typedef struct { Plan *plan; PlanItem *item; guint timer; const char *response; } Session;

static MilterClient *client;
static char *plan_path;
static int pipes[2];

static Session *sess (MilterClientContext *c)
{ return g_object_get_data(G_OBJECT(c), "sess"); }

static gint cmp (gconstpointer a, gconstpointer b) { return strcmp(a, b); }
static void put_macros (MilterClientContext *c)
{
    GHashTable *t = milter_protocol_agent_get_available_macros(MILTER_PROTOCOL_AGENT(c));
    GList *keys = g_list_sort(g_hash_table_get_keys(t), cmp), *k;
    printf(" |");
    for (k = keys; k; k = k->next) { putstr(k->data); putstr(g_hash_table_lookup(t, k->data)); }
    g_list_free(keys);
}
static void event (MilterClientContext *c, const char *name)
{ printf("E %d %s", sess(c)->plan->index, name); }
static void finish_event (MilterClientContext *c)
{ put_macros(c); printf("\n"); fflush(stdout); }

static MilterStatus verdict (const char *v)
{
    if (!strcmp(v, "continue")) return MILTER_STATUS_CONTINUE;
    if (!strcmp(v, "reject")) return MILTER_STATUS_REJECT;
    if (!strcmp(v, "tempfail")) return MILTER_STATUS_TEMPORARY_FAILURE;
    if (!strcmp(v, "accept")) return MILTER_STATUS_ACCEPT;
    if (!strcmp(v, "discard")) return MILTER_STATUS_DISCARD;
    if (!strcmp(v, "skip")) return MILTER_STATUS_SKIP;
    if (!strcmp(v, "noreply")) return MILTER_STATUS_NO_REPLY;
    if (!strcmp(v, "notchange")) return MILTER_STATUS_NOT_CHANGE;
    if (!strcmp(v, "allopts")) return MILTER_STATUS_ALL_OPTIONS;
    return MILTER_STATUS_DEFAULT;
}

static void run_op (MilterClientContext *c, PlanOp *op)
{
    GError *e = NULL; gboolean ok = FALSE; gsize l;
    const char *n = op->w[0];
    char *a = plan_str(op, 1), *b = plan_str(op, 2), *d = plan_str(op, 3);
    if (!strcmp(n, "reply")) ok = milter_client_context_set_reply(c, atoi(op->w[1]), b, d, &e);
    else if (!strcmp(n, "addh")) ok = milter_client_context_add_header(c, a, b, &e);
    else if (!strcmp(n, "insh")) ok = milter_client_context_insert_header(c, strtoul(op->w[1], NULL, 10), b, d, &e);
    else if (!strcmp(n, "chgh")) ok = milter_client_context_change_header(c, a, strtoul(op->w[2], NULL, 10), d, &e);
    else if (!strcmp(n, "delh")) ok = milter_client_context_delete_header(c, a, strtoul(op->w[2], NULL, 10), &e);
    else if (!strcmp(n, "addr")) ok = milter_client_context_add_recipient(c, a, b, &e);
    else if (!strcmp(n, "delr")) ok = milter_client_context_delete_recipient(c, a, &e);
    else if (!strcmp(n, "from")) ok = milter_client_context_change_from(c, a, b, &e);
    else if (!strcmp(n, "body")) { char *body = plan_hex(op->w[1], &l); ok = milter_client_context_replace_body(c, body, l, &e); free(body); }
    else if (!strcmp(n, "prog")) ok = milter_client_context_progress(c);
    else if (!strcmp(n, "quar")) ok = milter_client_context_quarantine(c, a);
    else if (!strcmp(n, "flush")) ok = milter_agent_flush(MILTER_AGENT(c), &e);
    else if (!strcmp(n, "shset")) { milter_client_context_set_mail_transaction_shelf_value(c, a, b); ok = TRUE; }
    printf("R %d %s %d %d", sess(c)->plan->index, n, ok, e ? e->code : -1);
    if (!strcmp(n, "sym")) putstr(milter_protocol_agent_get_macro(MILTER_PROTOCOL_AGENT(c), a));
    if (!strcmp(n, "shget")) putstr(milter_client_context_get_mail_transaction_shelf_value(c, a));
    printf("\n"); fflush(stdout);
    if (ok && e) { printf("X op %s succeeded with an error\n", n); }
    if (e) g_error_free(e);
    free(a); free(b); free(d);
}
static void cancel (MilterClientContext *c)
{
    Session *s = sess(c);
    if (s->timer) { milter_event_loop_remove(milter_agent_get_event_loop(MILTER_AGENT(c)), s->timer); s->timer = 0; }
}
static gboolean late (gpointer data)
{
    MilterClientContext *c = data; Session *s = sess(c); guint i; PlanItem *it = s->item;
    s->timer = 0;
    for (i = 0; i < it->late->len; i++) run_op(c, g_ptr_array_index(it->late, i));
    g_object_ref(c);
    g_signal_emit_by_name(c, s->response, verdict(it->verdict));
    g_object_unref(c);
    return FALSE;
}
static MilterStatus answer (MilterClientContext *c, const char *response)
{
    Session *s = sess(c); guint i; PlanItem *it = plan_next(s->plan);
    s->item = it; s->response = response;
    if (it->now) for (i = 0; i < it->now->len; i++) run_op(c, g_ptr_array_index(it->now, i));
    if (it->delay) {
        s->timer = milter_event_loop_add_timeout(milter_agent_get_event_loop(MILTER_AGENT(c)), it->delay / 1000.0, late, c);
        return MILTER_STATUS_PROGRESS;
    }
    return verdict(it->verdict);
}

static MilterStatus cb_negotiate (MilterClientContext *c, MilterOption *o, MilterMacrosRequests *m, gpointer u)
{
    Plan *p = sess(c)->plan; guint i;
    event(c, "negotiate");
    printf(" %u %u %u", milter_option_get_version(o), milter_option_get_action(o), milter_option_get_step(o));
    finish_event(c);
    if (!strcmp(p->verdict, "continue")) {
        milter_option_set_version(o, p->version); milter_option_set_action(o, p->action); milter_option_set_step(o, p->step);
    }
    if (p->macros) for (i = 0; i < p->macros->len; i++) {
        PlanOp *op = g_ptr_array_index(p->macros, i); int j;
        char **names = g_new0(char *, op->n);
        for (j = 1; j < op->n; j++) names[j - 1] = plan_str(op, j);
        milter_macros_requests_set_symbols_string_array(m, op->w[0][0], (const gchar **)names);
        for (j = 1; j < op->n; j++) free(names[j - 1]);
        g_free(names);
    }
    return verdict(p->verdict);
}
static MilterStatus cb_connect (MilterClientContext *c, const gchar *host, struct sockaddr *a, socklen_t len, gpointer u)
{
    char buf[200] = "";
    event(c, "connect"); putstr(host);
    if (!a) printf(" none");
    else if (a->sa_family == AF_INET) {
        struct sockaddr_in *s = (void *)a; inet_ntop(AF_INET, &s->sin_addr, buf, sizeof buf);
        printf(" inet %d %s %d", ntohs(s->sin_port), buf, (int)len);
    } else if (a->sa_family == AF_INET6) {
        struct sockaddr_in6 *s = (void *)a; inet_ntop(AF_INET6, &s->sin6_addr, buf, sizeof buf);
        printf(" inet6 %d %s %d", ntohs(s->sin6_port), buf, (int)len);
    } else if (a->sa_family == AF_UNIX) { printf(" unix"); putstr(((struct sockaddr_un *)a)->sun_path); }
    else printf(" unknown");
    finish_event(c);
    return answer(c, "connect-response");
}
#define ONE(cb, name, sig) static MilterStatus cb (MilterClientContext *c, const gchar *a, gpointer u) \
{ event(c, name); putstr(a); finish_event(c); return answer(c, sig); }
#define ZERO(cb, name, sig) static MilterStatus cb (MilterClientContext *c, gpointer u) \
{ event(c, name); finish_event(c); return answer(c, sig); }
ONE(cb_helo, "helo", "helo-response")
ONE(cb_envelope_from, "mail", "envelope-from-response")
ONE(cb_envelope_recipient, "rcpt", "envelope-recipient-response")
ONE(cb_unknown, "unknown", "unknown-response")
ZERO(cb_data, "data", "data-response")
ZERO(cb_end_of_header, "eoh", "end-of-header-response")
static MilterStatus cb_header (MilterClientContext *c, const gchar *n, const gchar *v, gpointer u)
{ event(c, "header"); putstr(n); putstr(v); finish_event(c); return answer(c, "header-response"); }
static MilterStatus cb_body (MilterClientContext *c, const gchar *b, gsize n, gpointer u)
{ event(c, "body"); puthex(b ? b : "", n); finish_event(c); return answer(c, "body-response"); }
static MilterStatus cb_end_of_message (MilterClientContext *c, const gchar *b, gsize n, gpointer u)
{ event(c, "eom"); puthex(b ? b : "", n); finish_event(c); return answer(c, "end-of-message-response"); }
static MilterStatus cb_body_bytes (MilterClientContext *c, GBytes *b, gpointer u)
{ gsize n = 0; const char *p = b ? g_bytes_get_data(b, &n) : NULL; return cb_body(c, p, n, u); }
static MilterStatus cb_end_of_message_bytes (MilterClientContext *c, GBytes *b, gpointer u)
{ gsize n = 0; const char *p = b ? g_bytes_get_data(b, &n) : NULL; return cb_end_of_message(c, p, n, u); }
static MilterStatus cb_abort (MilterClientContext *c, MilterClientContextState st, gpointer u)
{ event(c, "abort"); cancel(c); finish_event(c); return MILTER_STATUS_DEFAULT; }
static void cb_define_macro (MilterClientContext *c, MilterCommand st, GHashTable *t, gpointer u)
{
    GList *keys = g_list_sort(g_hash_table_get_keys(t), cmp), *k;
    event(c, "macro"); printf(" %c", st);
    for (k = keys; k; k = k->next) { putstr(k->data); putstr(g_hash_table_lookup(t, k->data)); }
    g_list_free(keys);
    printf(" |\n"); fflush(stdout);
}
static void cb_finished (MilterFinishedEmittable *em, gpointer u)
{ event(MILTER_CLIENT_CONTEXT(em), "finished"); printf(" |\n"); fflush(stdout); cancel(MILTER_CLIENT_CONTEXT(em)); }
static void cb_ctx_error (MilterErrorEmittable *em, GError *e, gpointer u)
{ event(MILTER_CLIENT_CONTEXT(em), "error"); putstr(e->message); printf(" |\n"); fflush(stdout); }
static void cb_timeout (MilterClientContext *c, gpointer u)
{ event(c, "timeout"); printf(" |\n"); fflush(stdout); }
static void cb_processed (MilterClientContext *c, MilterMessageResult *r, gpointer u)
{
    event(c, "processed");
    printf(" %d %d", milter_message_result_get_state(r), milter_message_result_get_status(r));
    printf(" |\n"); fflush(stdout);
}

static void cb_connection_established (MilterClient *cl, MilterClientContext *c, gpointer u)
{
    Session *s = g_new0(Session, 1);
    s->plan = plan_take();
    g_object_set_data_full(G_OBJECT(c), "sess", s, g_free);
    milter_client_context_set_use_bytes(c, s->plan->bytes);
#define CONNECT(name) g_signal_connect(c, #name, G_CALLBACK(cb_ ## name), NULL)
    CONNECT(negotiate); CONNECT(connect); CONNECT(helo); CONNECT(envelope_from); CONNECT(envelope_recipient);
    CONNECT(data); CONNECT(header); CONNECT(end_of_header); CONNECT(body); CONNECT(body_bytes);
    CONNECT(end_of_message); CONNECT(end_of_message_bytes); CONNECT(abort); CONNECT(unknown);
    CONNECT(define_macro); CONNECT(finished); CONNECT(timeout);
    g_signal_connect(c, "error", G_CALLBACK(cb_ctx_error), NULL);
    g_signal_connect(c, "message-processed", G_CALLBACK(cb_processed), NULL);
    printf("E %d open |\n", s->plan->index); fflush(stdout);
}
static void cb_error (MilterErrorEmittable *em, GError *e, gpointer u)
{ printf("X client error %s\n", e->message); fflush(stdout); }

static void on_signal (int n) { char b = n; if (write(pipes[1], &b, 1) < 0) _exit(9); }
static gboolean cb_pipe (GIOChannel *ch, GIOCondition cond, gpointer u)
{ char b; if (read(pipes[0], &b, 1) < 0) return TRUE; milter_client_shutdown(client); return TRUE; }

int main (int argc, char **argv)
{
    GError *e = NULL; gboolean ok; GIOChannel *ch;
    GOptionEntry entries[] = {{"plan", 0, 0, G_OPTION_ARG_STRING, &plan_path, "plan", "FILE"}, {NULL}};
    GOptionContext *oc;
    milter_init(); milter_client_init();
    client = milter_client_new();
    oc = g_option_context_new(NULL);
    g_option_context_add_main_entries(oc, entries, NULL);
    g_option_context_add_group(oc, milter_client_get_option_group(client));
    if (!g_option_context_parse(oc, &argc, &argv, &e)) { fprintf(stderr, "%s\n", e->message); return 2; }
    if (plan_path) plan_load(plan_path); else plans = g_ptr_array_new();
    if (pipe(pipes)) return 2;
    ok = milter_client_listen(client, &e);
    if (ok) ok = milter_client_drop_privilege(client, &e);
    if (ok) {
        MilterEventLoop *loop = milter_client_create_event_loop(client, TRUE);
        milter_client_set_event_loop(client, loop);
        g_signal_connect(client, "connection_established", G_CALLBACK(cb_connection_established), NULL);
        g_signal_connect(client, "error", G_CALLBACK(cb_error), NULL);
        signal(SIGTERM, on_signal); signal(SIGINT, on_signal);
        ch = g_io_channel_unix_new(pipes[0]);
        milter_event_loop_watch_io(loop, ch, G_IO_IN, cb_pipe, NULL);
        g_io_channel_unref(ch);
        ok = milter_client_run(client, &e);
    }
    if (!ok) { fprintf(stderr, "FAILED %s\n", e->message); g_error_free(e); }
    printf("Q %d\n", ok); fflush(stdout);
    g_object_unref(client);
    g_option_context_free(oc);
    milter_client_quit(); milter_quit();
    return ok ? 0 : 1;
}

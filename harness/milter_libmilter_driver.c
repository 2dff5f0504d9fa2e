/* A milter on the smfi_* API that does what a plan says and logs every
 * callback like milter_client_driver.
 *   milter_libmilter_driver PLAN SPEC FLAGS MISSING|- 0|1(xxfi_negotiate) */
#include <milter/client.h>
#include <mfapi.h>
#include <signal.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/un.h>
#include "common_plan.h"

typedef struct { Plan *plan; int opened, closed; } Session;

static Session *session (SMFICTX *ctx)
{
    static Session stray; static Plan none = {-1, 0, "default"};
    MilterClientContext *c = NULL; Session *s = NULL, *p;
    stray.plan = &none;
    if (!ctx) { printf("X no context\n"); fflush(stdout); return &stray; }
    g_object_get(ctx, "client-context", &c, NULL);
    if (!c) { printf("X a callback without a connection\n"); fflush(stdout); return &stray; }
    s = g_object_get_data(G_OBJECT(c), "sess");
    g_object_unref(c);
    if (!s) { printf("X a callback for an unknown connection\n"); fflush(stdout); return &stray; }
    /* the private data belongs to the connection */
    p = smfi_getpriv(ctx);
    if (s->opened ? p != s : p != NULL) { printf("X session %d: wrong private data\n", s->plan->index); fflush(stdout); }
    if (!s->opened) { smfi_setpriv(ctx, s); s->opened = 1; }
    if (s->closed) { printf("X session %d: a callback after xxfi_close\n", s->plan->index); fflush(stdout); }
    return s;
}
static gboolean on_established (GSignalInvocationHint *hint, guint n, const GValue *values, gpointer u)
{
    Session *s = g_new0(Session, 1);
    s->plan = plan_take();
    g_object_set_data_full(g_value_get_object(&values[1]), "sess", s, g_free);
    return TRUE;
}

static Session *event (SMFICTX *ctx, const char *name)
{ Session *s = session(ctx); printf("E %d %s", s->plan->index, name); return s; }
static void end (void) { printf(" |\n"); fflush(stdout); }

static sfsistat verdict (const char *v)
{
    if (!strcmp(v, "reject")) return SMFIS_REJECT;
    if (!strcmp(v, "tempfail")) return SMFIS_TEMPFAIL;
    if (!strcmp(v, "accept")) return SMFIS_ACCEPT;
    if (!strcmp(v, "discard")) return SMFIS_DISCARD;
    if (!strcmp(v, "skip")) return SMFIS_SKIP;
    if (!strcmp(v, "noreply")) return SMFIS_NOREPLY;
    if (!strcmp(v, "allopts")) return SMFIS_ALL_OPTS;
    return SMFIS_CONTINUE;
}
static void run_op (Session *s, SMFICTX *c, PlanOp *op)
{
    const char *n = op->w[0]; gsize l; int rc = MI_FAILURE;
    char *a = plan_str(op, 1), *b = plan_str(op, 2), *d = plan_str(op, 3);
    if (!strcmp(n, "reply")) rc = smfi_setreply(c, a, b, d);
    else if (!strcmp(n, "mlreply")) rc = smfi_setmlreply(c, a, b, d, d ? plan_str(op, 4) : NULL, plan_str(op, 5), NULL);
    else if (!strcmp(n, "addh")) rc = smfi_addheader(c, a, b);
    else if (!strcmp(n, "insh")) rc = smfi_insheader(c, strtol(op->w[1], NULL, 10), b, d);
    else if (!strcmp(n, "chgh")) rc = smfi_chgheader(c, a, strtol(op->w[2], NULL, 10), d);
    else if (!strcmp(n, "addr")) rc = smfi_addrcpt(c, a);
    else if (!strcmp(n, "addrp")) rc = smfi_addrcpt_par(c, a, b);
    else if (!strcmp(n, "delr")) rc = smfi_delrcpt(c, a);
    else if (!strcmp(n, "from")) rc = smfi_chgfrom(c, a, b);
    else if (!strcmp(n, "body")) { char *body = plan_hex(op->w[1], &l); rc = smfi_replacebody(c, (unsigned char *)body, l); free(body); }
    else if (!strcmp(n, "quar")) rc = smfi_quarantine(c, a);
    else if (!strcmp(n, "prog")) rc = smfi_progress(c);
    printf("R %d %s %d -1", s->plan->index, n, rc == MI_SUCCESS);
    if (!strcmp(n, "sym")) putstr(smfi_getsymval(c, a));
    printf("\n"); fflush(stdout);
    if (rc != MI_SUCCESS && rc != MI_FAILURE) printf("X %s returned %d\n", n, rc);
    free(a); free(b); free(d);
}
static sfsistat answer (Session *s, SMFICTX *c)
{
    PlanItem *it = plan_next(s->plan); guint i;
    if (it->now) for (i = 0; i < it->now->len; i++) run_op(s, c, g_ptr_array_index(it->now, i));
    return verdict(it->verdict);
}

static sfsistat f_negotiate (SMFICTX *c, unsigned long f0, unsigned long f1, unsigned long f2, unsigned long f3,
                             unsigned long *o0, unsigned long *o1, unsigned long *o2, unsigned long *o3)
{
    Session *s = event(c, "negotiate"); guint i; Plan *p = s->plan;
    printf(" %lu %lu", f0, f1); end();
    if (p->macros) for (i = 0; i < p->macros->len; i++) {
        PlanOp *op = g_ptr_array_index(p->macros, i); GString *l = g_string_new(NULL); int j, rc;
        for (j = 1; j < op->n; j++) {
            char *t = plan_str(op, j);
            if (j > 1) g_string_append_c(l, ' ');
            g_string_append(l, t); free(t);
        }
        rc = smfi_setsymlist(c, atoi(op->w[0]), l->str);
        printf("R %d symlist %d -1\n", p->index, rc == MI_SUCCESS); fflush(stdout);
        g_string_free(l, TRUE);
    }
    *o0 = *o1 = *o2 = *o3 = 0;
    if (!strcmp(p->verdict, "continue")) { *o0 = p->action; *o1 = p->step; }
    return verdict(p->verdict);
}
static sfsistat f_connect (SMFICTX *c, char *host, _SOCK_ADDR *a)
{
    char buf[200] = ""; Session *s = event(c, "connect");
    putstr(host);
    if (!a) printf(" none");
    else if (a->sa_family == AF_INET) {
        struct sockaddr_in *i = (void *)a; inet_ntop(AF_INET, &i->sin_addr, buf, sizeof buf);
        printf(" inet %d %s", ntohs(i->sin_port), buf);
    } else if (a->sa_family == AF_INET6) {
        struct sockaddr_in6 *i = (void *)a; inet_ntop(AF_INET6, &i->sin6_addr, buf, sizeof buf);
        printf(" inet6 %d %s", ntohs(i->sin6_port), buf);
    } else if (a->sa_family == AF_UNIX) { printf(" unix"); putstr(((struct sockaddr_un *)a)->sun_path); }
    else printf(" unknown");
    end();
    return answer(s, c);
}
#define ARG(fn, name, type, expr) static sfsistat fn (SMFICTX *c, type a) \
{ Session *s = event(c, name); expr; end(); return answer(s, c); }
ARG(f_helo, "helo", char *, putstr(a))
ARG(f_mail, "mail", char **, for (; *a; a++) putstr(*a))
ARG(f_rcpt, "rcpt", char **, for (; *a; a++) putstr(*a))
ARG(f_unknown, "unknown", const char *, putstr(a))
#define NONE(fn, name) static sfsistat fn (SMFICTX *c) { Session *s = event(c, name); end(); return answer(s, c); }
NONE(f_data, "data")
NONE(f_eoh, "eoh")
NONE(f_eom, "eom")
static sfsistat f_header (SMFICTX *c, char *n, char *v)
{ Session *s = event(c, "header"); putstr(n); putstr(v); end(); return answer(s, c); }
static sfsistat f_body (SMFICTX *c, unsigned char *b, size_t n)
{ Session *s = event(c, "body"); puthex((char *)b, n); end(); return answer(s, c); }
static sfsistat f_abort (SMFICTX *c) { event(c, "abort"); end(); return SMFIS_CONTINUE; }
static sfsistat f_close (SMFICTX *c) { Session *s = event(c, "finished"); end(); s->closed = 1; return SMFIS_CONTINUE; }

static void on_signal (int n) { smfi_stop(); }

int main (int argc, char **argv)
{
    struct smfiDesc d; const char *missing; int rc; guint sig;
    if (argc < 6) return 2;
    plan_load(argv[1]);
    missing = argv[4];
    memset(&d, 0, sizeof d);
    d.xxfi_name = "driver"; d.xxfi_version = SMFI_VERSION; d.xxfi_flags = strtoul(argv[3], NULL, 0);
#define SET(letter, field, fn) if (!strchr(missing, letter)) d.field = fn
    SET('C', xxfi_connect, f_connect); SET('H', xxfi_helo, f_helo); SET('M', xxfi_envfrom, f_mail);
    SET('R', xxfi_envrcpt, f_rcpt); SET('T', xxfi_data, f_data); SET('L', xxfi_header, f_header);
    SET('N', xxfi_eoh, f_eoh); SET('B', xxfi_body, f_body); SET('E', xxfi_eom, f_eom);
    SET('U', xxfi_unknown, f_unknown); SET('a', xxfi_abort, f_abort);
    d.xxfi_close = f_close;
    if (argv[5][0] == '1') d.xxfi_negotiate = f_negotiate;
    milter_init(); milter_client_init();
    g_type_class_ref(MILTER_TYPE_CLIENT);
    sig = g_signal_lookup("connection-established", MILTER_TYPE_CLIENT);
    g_signal_add_emission_hook(sig, 0, on_established, NULL, NULL);
    if (smfi_setconn(argv[2]) != MI_SUCCESS) { printf("X smfi_setconn\n"); return 2; }
    if (smfi_register(d) != MI_SUCCESS) { printf("X smfi_register\n"); return 2; }
    signal(SIGTERM, on_signal);
    rc = smfi_main();
    printf("Q %d\n", rc == MI_SUCCESS); fflush(stdout);
    return rc == MI_SUCCESS ? 0 : 1;
}

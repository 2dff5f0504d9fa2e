/* Line driven access to the core library for the Python oracles.
 * Request: one line of blank separated words.  A string argument is "x<hex>"
 * or "-" for NULL.  Reply: any number of lines, the last one is ".". */
#define _GNU_SOURCE
#include <milter/core.h>
#include <milter/manager.h>
#include <milter/manager/milter-manager-control-command-decoder.h>
#include <milter/manager/milter-manager-control-reply-decoder.h>
#include <milter/manager/milter-manager-launch-command-decoder.h>
#include <milter/manager/milter-manager-launch-command-encoder.h>
#include <milter/manager/milter-manager-reply-decoder.h>
#include <milter/manager/milter-manager-control-command-encoder.h>
#include <milter/manager/milter-manager-control-reply-encoder.h>
#include <milter/manager/milter-manager-reply-encoder.h>
#include <milter/core/milter-connection.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>

static char **W; static int N;

static char *hexdec (const char *s, gsize *len)
{
    gsize n, i; char *r;
    if (s[0] != 'x') { *len = 0; return NULL; }
    s++; n = strlen(s) / 2;
    r = malloc(n + 1);
    for (i = 0; i < n; i++) r[i] = g_ascii_xdigit_value(s[2 * i]) << 4 | g_ascii_xdigit_value(s[2 * i + 1]);
    r[n] = 0; *len = n;
    return r;
}
/* exact sized, NUL terminated */
static char *S (int i) { gsize l; return i < N ? hexdec(W[i], &l) : NULL; }
/* exact sized, not NUL terminated */
static char *B (int i, gsize *len)
{
    gsize l; char *s = hexdec(W[i], &l), *r;
    *len = l;
    r = malloc(l ? l : 1); memcpy(r, s, l); free(s);
    return r;
}
static void puthex (const char *s, gsize n)
{
    gsize i;
    if (!s) { printf(" -"); return; }
    printf(" x");
    for (i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]);
}
static void puts_ (const char *s) { puthex(s, s ? strlen(s) : 0); }
static void pkt (const gchar *p, gsize n)
{ printf("pkt"); if (!p) printf(" NULL"); else puthex(p, n); }

static void put_addr (const struct sockaddr *a, guint len)
{
    char buf[200];
    if (!a) { printf(" none"); return; }
    switch (a->sa_family) {
    case AF_INET: {
        const struct sockaddr_in *i = (const void *)a;
        printf(" inet:%s:%u:%u", inet_ntop(AF_INET, &i->sin_addr, buf, sizeof buf), ntohs(i->sin_port), len == sizeof *i);
        break; }
    case AF_INET6: {
        const struct sockaddr_in6 *i = (const void *)a;
        printf(" inet6:%s:%u:%u", inet_ntop(AF_INET6, &i->sin6_addr, buf, sizeof buf), ntohs(i->sin6_port), len == sizeof *i);
        break; }
    case AF_UNIX: {
        const struct sockaddr_un *u = (const void *)a;
        printf(" unix:"); gsize i, n = strlen(u->sun_path);
        for (i = 0; i < n; i++) printf("%02x", (unsigned char)u->sun_path[i]);
        printf(":0:%u", len == sizeof *u);
        break; }
    default:
        printf(" family%d:::", a->sa_family);
    }
}
static void put_option (MilterOption *o)
{
    if (!o) { printf(" none"); return; }
    printf(" %u:%u:%u", milter_option_get_version(o), milter_option_get_action(o), milter_option_get_step(o));
}
static void mr_cb (MilterCommand c, GList *symbols, gpointer d)
{
    printf(" %d=", c);
    for (; symbols; symbols = g_list_next(symbols)) {
        const char *s = symbols->data; const char *p;
        for (p = s; *p; p++) printf("%02x", (unsigned char)*p);
        printf(",");
    }
}
static int strpcmp (const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void put_hash (GHashTable *h)
{
    GHashTableIter it; gpointer k, v; GPtrArray *a; guint i;
    if (!h) { printf(" nohash"); return; }
    a = g_ptr_array_new();
    g_hash_table_iter_init(&it, h);
    while (g_hash_table_iter_next(&it, &k, &v)) g_ptr_array_add(a, k);
    if (a->len) qsort(a->pdata, a->len, sizeof(gpointer), strpcmp);
    for (i = 0; i < a->len; i++) {
        puts_(a->pdata[i]); puts_(g_hash_table_lookup(h, a->pdata[i]));
    }
    g_ptr_array_free(a, TRUE);
}

/* ---- generic signal printer ---- */
static void marshal (GClosure *c, GValue *ret, guint n, const GValue *v, gpointer hint, gpointer data)
{
    guint i; const char *name = c->data;
    printf("ev %s", name);
    for (i = 1; i < n; i++) {
        GType t = G_VALUE_TYPE(&v[i]);
        if (t == G_TYPE_STRING) {
            const char *s = g_value_get_string(&v[i]);
            if (i + 1 < n && G_VALUE_TYPE(&v[i + 1]) == G_TYPE_UINT64) {
                guint64 sz = g_value_get_uint64(&v[i + 1]);
                if (s && sz < 0x10000000) puthex(s, sz); else puts_(s);
                printf(" %" G_GUINT64_FORMAT, sz);
                i++;
            } else puts_(s);
        } else if (t == G_TYPE_UINT) printf(" %u", g_value_get_uint(&v[i]));
        else if (t == G_TYPE_INT) printf(" %d", g_value_get_int(&v[i]));
        else if (t == G_TYPE_POINTER) {
            if (!strcmp(name, "connect")) { put_addr(g_value_get_pointer(&v[i]), g_value_get_uint(&v[i + 1])); i++; }
            else if (!strcmp(name, "define-macro")) put_hash(g_value_get_pointer(&v[i]));
            else printf(" ptr");
        } else if (G_TYPE_IS_ENUM(t)) printf(" %d", g_value_get_enum(&v[i]));
        else if (t == MILTER_TYPE_OPTION) put_option(g_value_get_object(&v[i]));
        else if (t == MILTER_TYPE_MACROS_REQUESTS) {
            MilterMacrosRequests *r = g_value_get_object(&v[i]);
            if (r) milter_macros_requests_foreach(r, mr_cb, NULL); else printf(" nomr");
        } else printf(" ?%s", g_type_name(t));
    }
    printf("\n");
}
static void connect_type (gpointer obj, GType t)
{
    guint n, i, *ids = g_signal_list_ids(t, &n);
    for (i = 0; i < n; i++) {
        GSignalQuery q; GClosure *c;
        g_signal_query(ids[i], &q);
        if (!strcmp(q.signal_name, "decode") || !strcmp(q.signal_name, "notify")) continue;
        c = g_closure_new_simple(sizeof(GClosure), (gpointer)g_strdup(q.signal_name));
        g_closure_set_marshal(c, marshal);
        g_signal_connect_closure_by_id(obj, ids[i], 0, c, FALSE);
    }
    g_free(ids);
}
static void connect_all (gpointer obj)
{
    GType t, *ifs; guint n, i;
    for (t = G_OBJECT_TYPE(obj); t && t != G_TYPE_OBJECT; t = g_type_parent(t)) connect_type(obj, t);
    ifs = g_type_interfaces(G_OBJECT_TYPE(obj), &n);
    for (i = 0; i < n; i++) connect_type(obj, ifs[i]);
    g_free(ifs);
}

static MilterDecoder *decoder;
static MilterEncoder *ce, *re, *cce, *cre, *lce, *mre;
static MilterHeaders *H[8];
static MilterOption *O[8];
static MilterMacrosRequests *M[8];

static void put_error (GError *e)
{
    if (e) {
        /* the message has to be usable text */
        printf(" error %s %d", g_quark_to_string(e->domain), e->code);
        puts_(e->message);
        g_error_free(e);
    } else printf(" noerror");
}
static void headers_dump (MilterHeaders *h)
{
    const GList *n; guint c = 0;
    for (n = milter_headers_get_list(h); n; n = n->next) {
        MilterHeader *x = n->data;
        printf("h"); puts_(x->name); puts_(x->value);
        printf(" %d\n", milter_headers_index_in_same_header_name(h, x));
        c++;
    }
    printf("len %u %u\n", milter_headers_length(h), c);
}
static guint64 U (int i) { return strtoull(W[i], NULL, 10); }

static int is (const char *s) { return !strcmp(W[0], s); }

static void handle (void)
{
    const gchar *p = NULL; gsize n = 0, packed = 0; gsize bl; char *b, *s1, *s2;
    GError *e = NULL;
#define ENC(...) do { __VA_ARGS__; pkt(p, n); printf(" %zu\n", packed); } while (0)
#define EC(f, ...) ENC(milter_command_encoder_encode_##f(MILTER_COMMAND_ENCODER(ce), &p, &n, ##__VA_ARGS__))
#define ER(f, ...) ENC(milter_reply_encoder_encode_##f(MILTER_REPLY_ENCODER(re), &p, &n, ##__VA_ARGS__))
    if (is("c_negotiate")) {
        MilterOption *o = milter_option_new(U(1), U(2), U(3));
        EC(negotiate, o); g_object_unref(o);
    } else if (is("c_macro")) {
        GHashTable *h = g_hash_table_new_full(g_str_hash, g_str_equal, free, free); int i;
        for (i = 2; i + 1 < N; i += 2) g_hash_table_insert(h, S(i), S(i + 1));
        EC(define_macro, U(1), h); g_hash_table_unref(h);
    } else if (is("c_connect")) {
        s1 = S(1);
        if (!strcmp(W[2], "inet")) {
            struct sockaddr_in *a = calloc(1, sizeof *a);
            a->sin_family = AF_INET; a->sin_port = htons(U(4)); inet_pton(AF_INET, W[3], &a->sin_addr);
            EC(connect, s1, (struct sockaddr *)a, sizeof *a); free(a);
        } else if (!strcmp(W[2], "inet6")) {
            struct sockaddr_in6 *a = calloc(1, sizeof *a);
            a->sin6_family = AF_INET6; a->sin6_port = htons(U(4)); inet_pton(AF_INET6, W[3], &a->sin6_addr);
            EC(connect, s1, (struct sockaddr *)a, sizeof *a); free(a);
        } else if (!strcmp(W[2], "unix")) {
            struct sockaddr_un *a = calloc(1, sizeof *a); s2 = S(3);
            a->sun_family = AF_UNIX; strncpy(a->sun_path, s2, sizeof a->sun_path - 1);
            EC(connect, s1, (struct sockaddr *)a, sizeof *a); free(a); free(s2);
        } else {
            struct sockaddr *a = calloc(1, sizeof *a); a->sa_family = AF_UNSPEC;
            EC(connect, s1, a, sizeof *a); free(a);
        }
        free(s1);
    } else if (is("c_helo")) { s1 = S(1); EC(helo, s1); free(s1); }
    else if (is("c_from")) { s1 = S(1); EC(envelope_from, s1); free(s1); }
    else if (is("c_rcpt")) { s1 = S(1); EC(envelope_recipient, s1); free(s1); }
    else if (is("c_unknown")) { s1 = S(1); EC(unknown, s1); free(s1); }
    else if (is("c_data")) EC(data);
    else if (is("c_header")) { s1 = S(1); s2 = S(2); EC(header, s1, s2); free(s1); free(s2); }
    else if (is("c_eoh")) EC(end_of_header);
    else if (is("c_body")) { b = B(1, &bl); EC(body, b, bl, &packed); free(b); }
    else if (is("c_body_bytes")) {
        GBytes *g; b = B(1, &bl); g = g_bytes_new(b, bl); free(b);
        EC(body_bytes, g, &packed); g_bytes_unref(g); }
    else if (is("c_eom")) {
        if (W[1][0] == '-') EC(end_of_message, NULL, 0);
        else { b = B(1, &bl); EC(end_of_message, b, bl); free(b); } }
    else if (is("c_abort")) EC(abort);
    else if (is("c_quit")) EC(quit);
    else if (is("r_negotiate")) {
        MilterOption *o = milter_option_new(U(1), U(2), U(3)); MilterMacrosRequests *m = NULL; int i;
        if (N > 4) {
            m = milter_macros_requests_new();
            for (i = 4; i < N; i++) { /* <command>:<hex>,<hex>,.. */
                char *q = strchr(W[i], ':'); char **v; int k; GPtrArray *a = g_ptr_array_new();
                *q++ = 0; v = g_strsplit(q, ",", -1);
                for (k = 0; v[k]; k++) if (v[k][0]) { gsize l; g_ptr_array_add(a, hexdec(v[k], &l)); }
                g_ptr_array_add(a, NULL);
                milter_macros_requests_set_symbols_string_array(m, U(i), (const gchar **)a->pdata);
                for (k = 0; a->pdata[k]; k++) free(a->pdata[k]);
                g_ptr_array_free(a, TRUE); g_strfreev(v);
            }
        }
        ER(negotiate, o, m); g_object_unref(o); if (m) g_object_unref(m);
    } else if (is("r_continue")) ER(continue);
    else if (is("r_reply_code")) { s1 = S(1); ER(reply_code, s1); free(s1); }
    else if (is("r_tempfail")) ER(temporary_failure);
    else if (is("r_reject")) ER(reject);
    else if (is("r_accept")) ER(accept);
    else if (is("r_discard")) ER(discard);
    else if (is("r_add_header")) { s1 = S(1); s2 = S(2); ER(add_header, s1, s2); free(s1); free(s2); }
    else if (is("r_insert_header")) { s1 = S(2); s2 = S(3); ER(insert_header, U(1), s1, s2); free(s1); free(s2); }
    else if (is("r_change_header")) { s1 = S(1); s2 = S(3); ER(change_header, s1, U(2), s2); free(s1); free(s2); }
    else if (is("r_delete_header")) { s1 = S(1); ER(delete_header, s1, U(2)); free(s1); }
    else if (is("r_change_from")) { s1 = S(1); s2 = S(2); ER(change_from, s1, s2); free(s1); free(s2); }
    else if (is("r_add_rcpt")) { s1 = S(1); s2 = S(2); ER(add_recipient, s1, s2); free(s1); free(s2); }
    else if (is("r_del_rcpt")) { s1 = S(1); ER(delete_recipient, s1); free(s1); }
    else if (is("r_body")) { b = B(1, &bl); ER(replace_body, b, bl, &packed); free(b); }
    else if (is("r_progress")) ER(progress);
    else if (is("r_quarantine")) { s1 = S(1); ER(quarantine, s1); free(s1); }
    else if (is("r_connfail")) ER(connection_failure);
    else if (is("r_shutdown")) ER(shutdown);
    else if (is("r_skip")) ER(skip);
    /* manager protocols */
    else if (is("cc_set")) { b = B(1, &bl); ENC(milter_manager_control_command_encoder_encode_set_configuration(MILTER_MANAGER_CONTROL_COMMAND_ENCODER(cce), &p, &n, b, bl)); free(b); }
    else if (is("cc_reload")) ENC(milter_manager_control_command_encoder_encode_reload(MILTER_MANAGER_CONTROL_COMMAND_ENCODER(cce), &p, &n));
    else if (is("cc_status")) ENC(milter_manager_control_command_encoder_encode_get_status(MILTER_MANAGER_CONTROL_COMMAND_ENCODER(cce), &p, &n));
    else if (is("cr_success")) ENC(milter_manager_control_reply_encoder_encode_success(MILTER_MANAGER_CONTROL_REPLY_ENCODER(cre), &p, &n));
    else if (is("cr_failure")) { s1 = S(1); ENC(milter_manager_control_reply_encoder_encode_failure(MILTER_MANAGER_CONTROL_REPLY_ENCODER(cre), &p, &n, s1)); free(s1); }
    else if (is("cr_error")) { s1 = S(1); ENC(milter_manager_control_reply_encoder_encode_error(MILTER_MANAGER_CONTROL_REPLY_ENCODER(cre), &p, &n, s1)); free(s1); }
    else if (is("cr_configuration")) { b = B(1, &bl); ENC(milter_manager_control_reply_encoder_encode_configuration(MILTER_MANAGER_CONTROL_REPLY_ENCODER(cre), &p, &n, b, bl)); free(b); }
    else if (is("cr_status")) { b = B(1, &bl); ENC(milter_manager_control_reply_encoder_encode_status(MILTER_MANAGER_CONTROL_REPLY_ENCODER(cre), &p, &n, b, bl)); free(b); }
    else if (is("lc_launch")) { s1 = S(1); s2 = S(2); ENC(milter_manager_launch_command_encoder_encode_launch(MILTER_MANAGER_LAUNCH_COMMAND_ENCODER(lce), &p, &n, s1, s2)); free(s1); free(s2); }
    /* decoders */
    else if (is("dnew")) {
        if (decoder) g_object_unref(decoder);
        decoder = !strcmp(W[1], "command") ? milter_command_decoder_new() :
            !strcmp(W[1], "reply") ? milter_reply_decoder_new() :
            !strcmp(W[1], "control-command") ? milter_manager_control_command_decoder_new() :
            !strcmp(W[1], "control-reply") ? milter_manager_control_reply_decoder_new() :
            !strcmp(W[1], "launch-command") ? milter_manager_launch_command_decoder_new() :
            milter_manager_reply_decoder_new();
        connect_all(decoder);
    } else if (is("dfeed")) {
        gboolean r;
        b = B(1, &bl);
        r = milter_decoder_decode(decoder, b, bl, &e);
        free(b);
        printf("ret %d", r); put_error(e); printf("\n");
    } else if (is("dend")) {
        gboolean r = milter_decoder_end_decode(decoder, &e);
        printf("ret %d", r); put_error(e); printf("\n");
        g_object_unref(decoder); decoder = NULL;
    } else if (is("dfree")) { if (decoder) g_object_unref(decoder); decoder = NULL; }
    /* headers */
    else if (is("h_new")) { int i = U(1); if (H[i]) g_object_unref(H[i]); H[i] = milter_headers_new(); }
    else if (is("h_copy")) { int i = U(1), j = U(2); MilterHeaders *h = milter_headers_copy(H[j]); if (H[i]) g_object_unref(H[i]); H[i] = h; }
    else if (is("h_add")) { s1 = S(2); s2 = S(3); printf("ret %d\n", milter_headers_add_header(H[U(1)], s1, s2)); free(s1); free(s2); }
    else if (is("h_append")) { s1 = S(2); s2 = S(3); printf("ret %d\n", milter_headers_append_header(H[U(1)], s1, s2)); free(s1); free(s2); }
    else if (is("h_insert")) { s1 = S(3); s2 = S(4); printf("ret %d\n", milter_headers_insert_header(H[U(1)], U(2), s1, s2)); free(s1); free(s2); }
    else if (is("h_change")) { s1 = S(2); s2 = S(4); printf("ret %d\n", milter_headers_change_header(H[U(1)], s1, U(3), s2)); free(s1); free(s2); }
    else if (is("h_delete")) { s1 = S(2); printf("ret %d\n", milter_headers_delete_header(H[U(1)], s1, U(3))); free(s1); }
    else if (is("h_nth")) { MilterHeader *h = milter_headers_get_nth_header(H[U(1)], U(2)); printf("h"); if (h) { puts_(h->name); puts_(h->value); } printf("\n"); }
    else if (is("h_lookup")) { s1 = S(2); MilterHeader *h = milter_headers_lookup_by_name(H[U(1)], s1); printf("h"); if (h) { puts_(h->name); puts_(h->value); } printf("\n"); free(s1); }
    else if (is("h_find") || is("h_remove")) {
        s1 = S(2); s2 = S(3); MilterHeader *k = milter_header_new(s1, s2);
        if (is("h_find")) { MilterHeader *h = milter_headers_find(H[U(1)], k); printf("h"); if (h) { puts_(h->name); puts_(h->value); } printf("\n"); }
        else printf("ret %d\n", milter_headers_remove(H[U(1)], k));
        milter_header_free(k); free(s1); free(s2); }
    else if (is("h_eq")) {
        MilterHeader *x, *y; char *a = S(1), *v = S(2), *c = S(3), *d = S(4);
        x = milter_header_new(a, v); y = milter_header_new(c, d);
        printf("ret %d %d\n", milter_header_equal(x, y), milter_header_compare(x, y));
        milter_header_free(x); milter_header_free(y); free(a); free(v); free(c); free(d); }
    else if (is("h_dump")) headers_dump(H[U(1)]);
    /* options */
    else if (is("o_new")) { int i = U(1); if (O[i]) g_object_unref(O[i]); O[i] = milter_option_new(U(2), U(3), U(4)); }
    else if (is("o_copy")) { int i = U(1); MilterOption *o = milter_option_copy(O[U(2)]); if (O[i]) g_object_unref(O[i]); O[i] = o; }
    else if (is("o_combine")) printf("ret %d\n", milter_option_combine(O[U(1)], O[U(2)]));
    else if (is("o_merge")) printf("ret %d\n", milter_option_merge(O[U(1)], O[U(2)]));
    else if (is("o_equal")) printf("ret %d\n", milter_option_equal(O[U(1)], O[U(2)]));
    else if (is("o_add_action")) milter_option_add_action(O[U(1)], U(2));
    else if (is("o_remove_action")) milter_option_remove_action(O[U(1)], U(2));
    else if (is("o_add_step")) milter_option_add_step(O[U(1)], U(2));
    else if (is("o_remove_step")) milter_option_remove_step(O[U(1)], U(2));
    else if (is("o_dump")) { MilterOption *o = O[U(1)]; printf("o"); put_option(o);
        printf(" %u %u %u %u\n", milter_option_get_step_no_event(o), milter_option_get_step_no_reply(o), milter_option_get_step_no(o), milter_option_get_step_yes(o)); }
    /* macro requests */
    else if (is("m_new")) { int i = U(1); if (M[i]) g_object_unref(M[i]); M[i] = milter_macros_requests_new(); }
    else if (is("m_set")) {
        GPtrArray *a = g_ptr_array_new(); int k;
        for (k = 3; k < N; k++) g_ptr_array_add(a, S(k));
        g_ptr_array_add(a, NULL);
        milter_macros_requests_set_symbols_string_array(M[U(1)], U(2), (const gchar **)a->pdata);
        for (k = 0; a->pdata[k]; k++) free(a->pdata[k]);
        g_ptr_array_free(a, TRUE);
    } else if (is("m_merge")) milter_macros_requests_merge(M[U(1)], M[U(2)]);
    else if (is("m_dump")) { printf("m"); milter_macros_requests_foreach(M[U(1)], mr_cb, NULL); printf("\n"); }
    /* status */
    else if (is("status_compare")) printf("ret %d\n", milter_status_compare(U(1), U(2)));
    else if (is("status_ids")) printf("default=%d not-change=%d continue=%d reject=%d discard=%d accept=%d tempfail=%d skip=%d\n",
        MILTER_STATUS_DEFAULT, MILTER_STATUS_NOT_CHANGE, MILTER_STATUS_CONTINUE, MILTER_STATUS_REJECT,
        MILTER_STATUS_DISCARD, MILTER_STATUS_ACCEPT, MILTER_STATUS_TEMPORARY_FAILURE, MILTER_STATUS_SKIP);
    else if (is("status_default")) printf("ret %d\n", MILTER_STATUS_DEFAULT);
    /* specs */
    else if (is("spec")) {
        gint domain = -1; struct sockaddr *a = NULL; socklen_t len = 0; gboolean r;
        s1 = S(1);
        r = milter_connection_parse_spec(s1, &domain, &a, &len, &e);
        printf("ret %d %d", r, domain); put_addr(a, len); printf("\n");
        if (r && a) {
            char *t = milter_connection_address_to_spec(a);
            printf("spec"); puts_(t); printf("\n"); g_free(t);
        }
        printf("err"); put_error(e); printf("\n");
        g_free(a); free(s1);
    } else if (is("esmtp")) {
        char *path = (char *)"unset"; GHashTable *h = NULL; gboolean r;
        s1 = S(2); path = NULL;
        if (W[1][0] == 'm') r = milter_esmtp_parse_mail_from_argument(s1, &path, &h, &e);
        else r = milter_esmtp_parse_rcpt_to_argument(s1, &path, &h, &e);
        printf("ret %d", r); puts_(path); put_hash(h); printf("\n");
        printf("err"); put_error(e); printf("\n");
        g_free(path); if (h) g_hash_table_unref(h); free(s1);
    } else if (is("esmtp_null")) {
        gboolean r; s1 = S(2);
        if (W[1][0] == 'm') r = milter_esmtp_parse_mail_from_argument(s1, NULL, NULL, NULL);
        else r = milter_esmtp_parse_rcpt_to_argument(s1, NULL, NULL, NULL);
        printf("ret %d\n", r); free(s1);
    } else printf("unknown-command %s\n", W[0]);
}

int main (int argc, char **argv)
{
    char *line = NULL; size_t cap = 0; ssize_t l;
    milter_init();
    ce = milter_command_encoder_new(); re = milter_reply_encoder_new();
    cce = milter_manager_control_command_encoder_new(); cre = milter_manager_control_reply_encoder_new();
    lce = milter_manager_launch_command_encoder_new(); mre = milter_manager_reply_encoder_new();
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while ((l = getline(&line, &cap, stdin)) > 0) {
        char *save = NULL, *t; int capn = 64;
        W = malloc(capn * sizeof *W); N = 0;
        if (line[l - 1] == '\n') line[l - 1] = 0;
        for (t = strtok_r(line, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
            if (N == capn) W = realloc(W, (capn *= 2) * sizeof *W);
            W[N++] = t;
        }
        if (N) handle();
        free(W);
        printf(".\n"); fflush(stdout);
    }
    return 0;
}

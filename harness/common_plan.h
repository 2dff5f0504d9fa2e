/* What a milter under test has to do, read from a file.
 *   S                               a new session (in the order of connections)
 *   B 0|1                           use the GBytes variants of the signals
 *   N VERDICT VERSION ACTION STEP   answer to the negotiation
 *   M STAGE NAME...                 macros wanted for a stage
 *   C VERDICT DELAY                 answer to the next callback, DELAY in ms
 *   O OP ARGS...                    something to do in that callback
 *   L OP ARGS...                    something to do when the delay is over
 * Strings are "x<hex>" or "-" for NULL. */
#include <glib.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { char **w; int n; } PlanOp;
typedef struct { char *verdict; int delay; GPtrArray *now, *late; } PlanItem;
typedef struct {
    int index, bytes;
    char *verdict; int version; unsigned action, step;
    GPtrArray *macros;          /* PlanOp: STAGE NAME... */
    GPtrArray *items; guint next;
} Plan;

static GPtrArray *plans; static guint next_plan;
static PlanItem default_item = {"default", 0, NULL, NULL};

static char *plan_hex (const char *s, gsize *len)
{
    gsize n, i; char *r;
    *len = 0;
    if (!s || s[0] != 'x') return NULL;
    s++; n = strlen(s) / 2;
    r = malloc(n + 1);
    for (i = 0; i < n; i++) r[i] = g_ascii_xdigit_value(s[2 * i]) << 4 | g_ascii_xdigit_value(s[2 * i + 1]);
    r[n] = 0; *len = n;
    return r;
}
static char *plan_str (PlanOp *op, int i)
{ gsize l; return i < op->n ? plan_hex(op->w[i], &l) : NULL; }

static PlanOp *plan_op (char **w)
{
    PlanOp *op = g_new0(PlanOp, 1);
    op->w = w; op->n = g_strv_length(w);
    return op;
}
static void plan_load (const char *path)
{
    char *text, **lines; int i; Plan *p = NULL; PlanItem *it = NULL;
    plans = g_ptr_array_new();
    if (!g_file_get_contents(path, &text, NULL, NULL)) { fprintf(stderr, "no plan %s\n", path); exit(3); }
    lines = g_strsplit(text, "\n", -1);
    for (i = 0; lines[i]; i++) {
        char **w = g_strsplit(lines[i], " ", -1);
        switch (w[0] ? w[0][0] : 0) {
        case 'S':
            p = g_new0(Plan, 1); p->index = plans->len;
            p->verdict = "default"; p->macros = g_ptr_array_new(); p->items = g_ptr_array_new();
            g_ptr_array_add(plans, p); it = NULL; break;
        case 'B': p->bytes = atoi(w[1]); break;
        case 'N':
            p->verdict = w[1]; p->version = atoi(w[2]);
            p->action = strtoul(w[3], NULL, 0); p->step = strtoul(w[4], NULL, 0); break;
        case 'M': g_ptr_array_add(p->macros, plan_op(w + 1)); break;
        case 'C':
            it = g_new0(PlanItem, 1); it->verdict = w[1]; it->delay = atoi(w[2]);
            it->now = g_ptr_array_new(); it->late = g_ptr_array_new();
            g_ptr_array_add(p->items, it); break;
        case 'O': g_ptr_array_add(it->now, plan_op(w + 1)); break;
        case 'L': g_ptr_array_add(it->late, plan_op(w + 1)); break;
        }
    }
}
static Plan *plan_take (void)
{
    static Plan none = {-1, 0, "default"};
    if (next_plan >= plans->len) return &none;
    return g_ptr_array_index(plans, next_plan++);
}
static PlanItem *plan_next (Plan *p)
{
    if (!p->items || p->next >= p->items->len) return &default_item;
    return g_ptr_array_index(p->items, p->next++);
}

static void puthex (const char *s, gsize n)
{
    gsize i;
    if (!s) { printf(" -"); return; }
    printf(" x");
    for (i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]);
}
static void putstr (const char *s) { puthex(s, s ? strlen(s) : 0); }

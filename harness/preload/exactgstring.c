/* GString with exact capacity.  GLib gives a GString more room than its
 * contents need, so a read past the contents stays inside the allocation and
 * AddressSanitizer cannot see it.  The milter libraries resolve these symbols
 * through their PLT, so linking this library first gives their GStrings an
 * allocation of exactly len + 1 bytes; every read past that is reported. */
#undef G_DISABLE_CAST_CHECKS
#define GLIB_DISABLE_DEPRECATION_WARNINGS
#include <glib.h>
#include <string.h>
#undef g_string_append_len
#undef g_string_append_c
#undef g_string_append
#undef g_string_truncate
#undef g_string_free

static void fit (GString *s)
{
    char *n = g_malloc(s->len + 1);
    memcpy(n, s->str, s->len);
    n[s->len] = '\0';
    g_free(s->str);
    s->str = n;
    s->allocated_len = s->len + 1;
}

GString *g_string_insert_len (GString *s, gssize pos, const gchar *val, gssize len)
{
    gsize l, p;
    char *n;
    if (!s) return NULL;
    if (!val || len == 0) return s;
    l = len < 0 ? strlen(val) : (gsize)len;
    p = pos < 0 ? s->len : (gsize)pos;
    g_return_val_if_fail(p <= s->len, s);
    n = g_malloc(s->len + l + 1);
    memcpy(n, s->str, p);
    memcpy(n + p, val, l);
    memcpy(n + p + l, s->str + p, s->len - p);
    s->len += l;
    n[s->len] = '\0';
    g_free(s->str);
    s->str = n;
    s->allocated_len = s->len + 1;
    return s;
}
GString *g_string_append_len (GString *s, const gchar *val, gssize len)
{ return g_string_insert_len(s, -1, val, len); }
GString *g_string_append (GString *s, const gchar *val)
{ return g_string_insert_len(s, -1, val, -1); }
GString *g_string_append_c (GString *s, gchar c)
{ return g_string_insert_len(s, -1, &c, 1); }
GString *g_string_insert_c (GString *s, gssize pos, gchar c)
{ return g_string_insert_len(s, pos, &c, 1); }
GString *g_string_erase (GString *s, gssize pos, gssize len)
{
    g_return_val_if_fail(s != NULL, NULL);
    g_return_val_if_fail(pos >= 0, s);
    g_return_val_if_fail((gsize)pos <= s->len, s);
    if (len < 0) len = s->len - pos;
    g_return_val_if_fail((gsize)(pos + len) <= s->len, s);
    memmove(s->str + pos, s->str + pos + len, s->len - pos - len);
    s->len -= len;
    fit(s);
    return s;
}
GString *g_string_truncate (GString *s, gsize len)
{
    if (!s) return NULL;
    if (len < s->len) s->len = len;
    fit(s);
    return s;
}

/*
 * Bounded printing against the C library's unbounded one, and log records against the
 * documented line, for every size, level, limit and flag.
 */
#include "mc.h"
#include <stdio.h>
#include <stdarg.h>
#include <limits.h>
#include <bfdev/scnprintf.h>
#include <bfdev/log.h>
#include <bfdev/errno.h>

static int vs(char *buf, size_t size, const char *fmt, ...)
{
    va_list args;
    int n;

    va_start(args, fmt);
    n = bfdev_vscnprintf(buf, size, fmt, args);
    va_end(args);
    return n;
}

static void stored(const char *what, const char *buf, size_t size, int n, const char *want, size_t len)
{
    size_t keep = !size ? 0 : len < size ? len : size - 1;

    mc_assert(n >= 0 && (size_t)n == keep, "%s: %zu characters into %zu bytes: returned %d, expected %zu", what, len, size, n, keep);
    if (size) {
        mc_assert(buf[keep] == '\0', "%s: %zu characters into %zu bytes are not terminated", what, len, size);
        mc_assert(!memcmp(buf, want, keep), "%s: %zu characters into %zu bytes were stored wrongly", what, len, size);
    }
}

/* all sizes, all lengths */
static void s_sizes(void)
{
    size_t size = mc_choose(mc_bound + 1), len = mc_choose(mc_bound + 1), i;
    char text[256], whole[300], *buf = mc_buffer(size);

    for (i = 0; i < len; i++)
        text[i] = 'a' + i % 26;
    text[len] = 0;
    mc_step("%zu characters into %zu bytes", len, size);
    memset(buf, 0x5a, size);
    stored("string", buf, size, bfdev_scnprintf(buf, size, "%s", text), text, len);
    memset(buf, 0x5a, size);
    stored("string list", buf, size, vs(buf, size, "%s", text), text, len);
    sprintf(whole, "<%d>%s[%#lx]", -5, text, 0xfeedUL);
    memset(buf, 0x5a, size);
    stored("mixture", buf, size, bfdev_scnprintf(buf, size, "<%d>%s[%#lx]", -5, text, 0xfeedUL), whole, strlen(whole));
    memset(buf, 0x5a, size);
    stored("mixture list", buf, size, vs(buf, size, "<%d>%s[%#lx]", -5, text, 0xfeedUL), whole, strlen(whole));
    mc_case(mc_mix(size, len));
}

/* sizes and lengths around 2^8, 2^12 and 2^16 */
static void s_printed(void)
{
    static const size_t v[] = { 0, 1, 254, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001, 200003 };
    size_t size = v[mc_choose(MC_ARRAY_SIZE(v))], len = v[mc_choose(MC_ARRAY_SIZE(v))], i;
    char *text = mc_buffer(len + 1), *buf = mc_buffer(size);

    for (i = 0; i < len; i++)
        text[i] = 'a' + i % 26;
    text[len] = 0;
    mc_step("%zu characters into %zu bytes", len, size);
    memset(buf, 0x5a, size);
    stored("string", buf, size, bfdev_scnprintf(buf, size, "%s", text), text, len);
    memset(buf, 0x5a, size);
    stored("string list", buf, size, vs(buf, size, "%.*s", (int)len, text), text, len);
    mc_case(mc_mix(size, len));
}

/* output that cannot be made: nothing can be stored, and nothing must be claimed to be */
static void s_errors(void)
{
    static const int which[] = { 0, 1 };
    size_t size = mc_choose(20);
    int k = which[mc_choose(2)], n;
    bool list = mc_choose(2);
    char *buf = mc_buffer(size);

    memset(buf, 0x5a, size);
    if (k)
        n = list ? vs(buf, size, "ab%*d%*d", INT_MAX, 1, INT_MAX, 2) : bfdev_scnprintf(buf, size, "ab%*d%*d", INT_MAX, 1, INT_MAX, 2);
    else
        n = list ? vs(buf, size, "ab%lc", 0x7fffffff) : bfdev_scnprintf(buf, size, "ab%lc", 0x7fffffff);
    mc_step("failing output into %zu bytes: %d", size, n);
    mc_assert(n >= 0 && (!size ? n == 0 : (size_t)n < size), "failing output into %zu bytes returned %d", size, n);
    if (size)
        mc_assert(strnlen(buf, size) == (size_t)n, "failing output into %zu bytes claims %d characters, and stored %zu", size, n, strnlen(buf, size));
    mc_case(mc_mix(size, k * 2 + list));
}

/* the level of a format: every short string over the characters that matter */
static void s_parse(void)
{
    static const char abc[] = { 1, '0', '7', '8', '9', 'x', '/', ':' };
    int len = mc_choose(mc_bound + 1), i;
    unsigned want = BFDEV_LEVEL_DEFAULT, got;
    const char *start, *end;
    char *str = mc_buffer(len + 1);

    for (i = 0; i < len; i++)
        str[i] = abc[mc_choose(MC_ARRAY_SIZE(abc))];
    str[len] = 0;
    for (start = str; start[0] == 1 && start[1]; start += 2)
        if (start[1] >= '0' && start[1] <= '9')
            want = start[1] - '0';
    end = str;
    got = bfdev_log_level(str, &end);
    mc_step("level of %d characters: %u", len, got);
    mc_assert(got == want && end == start, "level %u after %ld characters, expected %u after %ld", got, (long)(end - str), want, (long)(start - str));
    end = NULL;
    got = bfdev_log_level(str, &end);
    mc_assert(got == want && end == start, "level %u, and the end is not stored", got);
    mc_assert(bfdev_log_level(str, NULL) == want, "level without an end");
    mc_case(mc_mix_bytes(len, str, len));
}

static const char *const lname[] = { "emerg", "alert", "crit", "error", "warning", "notice", "info", "debug", "default" };
static const int lcolor[] = { 91, 31, 35, 33, 34, 96, 92, 90, 39 };
static const char *const lfmt[] = { BFDEV_EMERG, BFDEV_ALERT, BFDEV_CRIT, BFDEV_ERR, BFDEV_WARNING, BFDEV_NOTICE, BFDEV_INFO, BFDEV_DEBUG, BFDEV_DEFAULT, BFDEV_SOH "9", BFDEV_SOH "2" BFDEV_SOH "5", BFDEV_SOH "c" BFDEV_SOH "1" };
static const int lval[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 5, 1 };

static int writes, wret;
static char wbuf[2048];
static unsigned wlevel;
static size_t wlen;

static int on_write(bfdev_log_message_t *msg, void *pdata)
{
    mc_assert(pdata == &writes, "the writer's data was lost");
    mc_assert(msg->length < BFDEV_LOG_BUFF_SIZE, "a record of %zu characters", msg->length);
    mc_assert(strlen(msg->buff) == msg->length, "a record of %zu characters says %zu", strlen(msg->buff), msg->length);
    memcpy(wbuf, msg->buff, msg->length + 1);
    wlevel = msg->level;
    wlen = msg->length;
    writes++;
    return wret;
}

static int line(char *want, int flags, int level, const char *text)
{
    char full[2048];

    sprintf(full, "%s%s%s%s", flags & BFDEV_LOG_LEVEL ? "[" : "", flags & BFDEV_LOG_LEVEL ? lname[level] : "", flags & BFDEV_LOG_LEVEL ? "] " : "", "");
    if (flags & BFDEV_LOG_COLOR)
        sprintf(full + strlen(full), "\033[%dm", lcolor[level]);
    strcat(full, text);
    if (flags & BFDEV_LOG_COLOR)
        strcat(full, "\033[0m");
    full[BFDEV_LOG_BUFF_SIZE - 1] = 0;
    strcpy(want, full);
    return strlen(want);
}

static int viewed(bfdev_log_t *log, const char *fmt, ...)
{
    va_list args;
    int ret;

    va_start(args, fmt);
    ret = bfdev_vlog_core(log, fmt, args);
    va_end(args);
    return ret;
}

static void s_record(void)
{
    int k = mc_choose(12), flags = mc_choose(4), def = mc_choose(9), record = mc_choose(10), how = mc_choose(3), len;
    static const int lens[] = { 0, 1, 40 };
    bfdev_log_t log, saved = bfdev_log_default;
    char fmt[64], text[1024], want[2048];
    int level = lval[k] == 8 ? def : lval[k], ret, i, n;

    wret = mc_choose(3) - 1;
    len = lens[mc_choose(3)];
    for (i = 0; i < len; i++)
        text[i] = 'A' + i % 57;
    text[len] = 0;
    snprintf(fmt, sizeof(fmt), "%s%%s.%%d", lfmt[k]);
    bfdev_log_init(&log, def, record == 9 ? UINT_MAX : record, flags, on_write, &writes);
    writes = 0;
    if (how == 2) {
        bfdev_log_default = log;
        ret = bfdev_log_core(NULL, fmt, text, 42);
        bfdev_log_default = saved;
    } else
        ret = (how ? viewed : bfdev_log_core)(&log, fmt, text, 42);
    strcat(text, ".42");
    n = line(want, flags, level, text);
    mc_step("format level %d, default %d, limit %d: %d writes", lval[k], def, record, writes);
    mc_case(mc_mix(mc_mix(k * 4 + flags, def * 10 + record), how * 100 + len));
    if (record != 9 && level > record) {
        mc_assert(!writes && !ret, "a record of level %d was written in spite of the limit %d", level, record);
        return;
    }
    mc_assert(writes == 1, "a record of level %d was written %d times with the limit %d", level, writes, record);
    mc_assert(ret == wret, "returned %d, the writer %d", ret, wret);
    mc_assert(wlevel == (unsigned)level, "record of level %u, expected %d", wlevel, level);
    mc_assert(wlen == (size_t)n && !strcmp(wbuf, want), "the record is \"%s\", expected \"%s\"", wbuf, want);
}

/* around the size of the buffer */
static void s_long(void)
{
    int flags = mc_choose(4), level = mc_choose(9), len = 480 + mc_choose(60), i, ret, n;
    char text[1024], want[2048];
    bfdev_log_t log;

    if (mc_choose(2))
        len += 400;
    for (i = 0; i < len; i++)
        text[i] = 'a' + i % 26;
    text[len] = 0;
    bfdev_log_init(&log, level, 8, flags, on_write, &writes);
    writes = wret = 0;
    ret = bfdev_log_core(&log, "%s", text);
    n = line(want, flags, level, text);
    mc_step("record of %d characters, flags %d", len, flags);
    mc_assert(!ret && writes == 1, "a long record was written %d times", writes);
    mc_assert(wlen == (size_t)n && !strcmp(wbuf, want), "a record of %d characters is %zu long, expected %d", len, wlen, n);
    mc_case(mc_mix(flags * 9 + level, len));
}

#undef bfdev_log_fmt
#define bfdev_log_fmt(fmt) "mod: " fmt
#undef bfdev_log_conf
#define bfdev_log_conf (&conf)
static bfdev_log_t conf;

/* the macros, and where the default writer puts them */
static void s_macros(void)
{
    int k = mc_choose(9), flags = mc_choose(4), record = mc_choose(9), own = mc_choose(2), ret, n;
    char want[2048], out[600] = "", err[600] = "";
    FILE *fo = NULL, *fe = NULL, *so = stdout, *se = stderr;

    bfdev_log_init(&conf, 8, record, flags, own ? on_write : NULL, &writes);
    writes = wret = 0;
    if (!own) {
        fo = fmemopen(out, sizeof(out), "w");
        fe = fmemopen(err, sizeof(err), "w");
        stdout = fo;
        stderr = fe;
    }
    switch (k) {
    case 0: ret = bfdev_log_emerg("%d", 7); break;
    case 1: ret = bfdev_log_alert("%d", 7); break;
    case 2: ret = bfdev_log_crit("%d", 7); break;
    case 3: ret = bfdev_log_err("%d", 7); break;
    case 4: ret = bfdev_log_warn("%d", 7); break;
    case 5: ret = bfdev_log_notice("%d", 7); break;
    case 6: ret = bfdev_log_info("%d", 7); break;
    case 7: ret = bfdev_log_debug("%d", 7); break;
    default: ret = bfdev_log("mod: %d", 7); break;
    }
    if (!own) {
        stdout = so;
        stderr = se;
        fclose(fo);
        fclose(fe);
    }
    mc_step("macro %s, limit %d", lname[k], record);
    n = line(want, flags, k, "mod: 7");
    mc_case(mc_mix(k * 4 + flags, record * 2 + own));
    if (own) {
        mc_assert(writes == (k <= record), "%s written %d times with limit %d", lname[k], writes, record);
        mc_assert(!writes || (wlen == (size_t)n && !strcmp(wbuf, want)), "%s is \"%s\", expected \"%s\"", lname[k], wbuf, want);
    } else {
        mc_assert(!strcmp(k <= BFDEV_LEVEL_WARNING ? err : out, k <= record ? want : ""), "%s with limit %d printed \"%s\" and \"%s\"", lname[k], record, out, err);
        mc_assert(!*(k <= BFDEV_LEVEL_WARNING ? out : err), "%s printed to the wrong stream", lname[k]);
    }
    mc_assert(ret >= 0, "%s returned %d", lname[k], ret);
}

const mc_scenario_t mc_scenarios[] = {
    { "sizes and lengths", s_sizes, { 40, 120 }, 0, 1 },
    { "large sizes and lengths", s_printed, { 0, 0 }, 0, 2 },
    { "output that fails", s_errors, { 1, 1 }, 0, 1 },
    { "level of a format", s_parse, { 5, 7 }, 0, 2 },
    { "records", s_record, { 1, 1 }, 0, 3 },
    { "long records", s_long, { 1, 1 }, 0, 2 },
    { "macros and the default writer", s_macros, { 1, 1 }, 0, 2 },
    { NULL }
};

/*
 * Error codes: every code number, its names and texts; error pointers for every code and
 * boundary pointer; actions, dummy callbacks and scope guards for every history.
 */
#include "mc.h"
#include <errno.h>
#include <limits.h>
#include <bfdev/errname.h>
#include <bfdev/errptr.h>
#include <bfdev/action.h>
#include <bfdev/callback.h>
#include <bfdev/guards.h>
#include <bfdev/bug.h>
#include <bfdev/log.h>
#include <setjmp.h>
#include <signal.h>

#define CODE(name, value, info) { BFDEV_##name, value, #name, info },
static const struct { int code, value; const char *name, *info; } codes[] = {
    CODE(ENOERR, 0, "No error")
    CODE(EPERM, 1, "Operation not permitted")
    CODE(ENOENT, 2, "No such file or directory")
    CODE(ESRCH, 3, "No such process")
    CODE(EINTR, 4, "Interrupted system call")
    CODE(EIO, 5, "I/O error")
    CODE(ENXIO, 6, "No such device or address")
    CODE(E2BIG, 7, "Argument list too long")
    CODE(ENOEXEC, 8, "Exec format error")
    CODE(EBADF, 9, "Bad file number")
    CODE(ECHILD, 10, "No child processes")
    CODE(EAGAIN, 11, "Try again")
    CODE(ENOMEM, 12, "Out of memory")
    CODE(EACCES, 13, "Permission denied")
    CODE(EFAULT, 14, "Bad address")
    CODE(ENOTBLK, 15, "Block device required")
    CODE(EBUSY, 16, "Device or resource busy")
    CODE(EEXIST, 17, "File exists")
    CODE(EXDEV, 18, "Cross-device link")
    CODE(ENODEV, 19, "No such device")
    CODE(ENOTDIR, 20, "Not a directory")
    CODE(EISDIR, 21, "Is a directory")
    CODE(EINVAL, 22, "Invalid argument")
    CODE(ENFILE, 23, "File table overflow")
    CODE(EMFILE, 24, "Too many open files")
    CODE(ENOTTY, 25, "Not a typewriter")
    CODE(ETXTBSY, 26, "Text file busy")
    CODE(EFBIG, 27, "File too large")
    CODE(ENOSPC, 28, "No space left on device")
    CODE(ESPIPE, 29, "Illegal seek")
    CODE(EROFS, 30, "Read-only file system")
    CODE(EMLINK, 31, "Too many links")
    CODE(EPIPE, 32, "Broken pipe")
    CODE(EDOM, 33, "Math argument out of domain of func")
    CODE(ERANGE, 34, "Math result not representable")
    CODE(EDEADLK, 35, "Resource deadlock would occur")
    CODE(ENAMETOOLONG, 36, "File name too long")
    CODE(ENOLCK, 37, "No record locks available")
    CODE(ENOSYS, 38, "Invalid system call number")
    CODE(EBFONT, 59, "Bad font file format")
    CODE(ENOSTR, 60, "Device not a stream")
    CODE(ENODATA, 61, "No data available")
    CODE(ETIME, 62, "Timer expired")
    CODE(ENOSR, 63, "Out of streams resources")
    CODE(ENONET, 64, "Machine is not on the network")
    CODE(ENOPKG, 65, "Package not installed")
    CODE(EREMOTE, 66, "Object is remote")
    CODE(ENOLINK, 67, "Link has been severed")
    CODE(EADV, 68, "Advertise error")
    CODE(ESRMNT, 69, "Srmount error")
    CODE(ECOMM, 70, "Communication error on send")
    CODE(EPROTO, 71, "Protocol error")
    CODE(EMULTIHOP, 72, "Multihop attempted")
    CODE(EDOTDOT, 73, "RFS specific error")
    CODE(EBADMSG, 74, "Not a data message")
    CODE(EOVERFLOW, 75, "Value too large for defined data type")
    CODE(ENOTUNIQ, 76, "Name not unique on network")
    CODE(EBADFD, 77, "File descriptor in bad state")
    CODE(EREMCHG, 78, "Remote address changed")
    CODE(ELIBACC, 79, "Can not access a needed shared library")
    CODE(ELIBBAD, 80, "Accessing a corrupted shared library")
    CODE(ELIBSCN, 81, ".lib section in a.out corrupted")
    CODE(ELIBMAX, 82, "Attempting to link in too many shared libraries")
    CODE(ELIBEXEC, 83, "Cannot exec a shared library directly")
    CODE(EILSEQ, 84, "Illegal byte sequence")
    CODE(ERESTART, 85, "Interrupted system call should be restarted")
    CODE(ESTRPIPE, 86, "Streams pipe error")
    CODE(EUSERS, 87, "Too many users")
    CODE(ENOTSOCK, 88, "Socket operation on non-socket")
    CODE(EDESTADDRREQ, 89, "Destination address required")
    CODE(EMSGSIZE, 90, "Message too long")
    CODE(EPROTOTYPE, 91, "Protocol wrong type for socket")
    CODE(ENOPROTOOPT, 92, "Protocol not available")
    CODE(EPROTONOSUPPORT, 93, "Protocol not supported")
    CODE(ESOCKTNOSUPPORT, 94, "Socket type not supported")
    CODE(EOPNOTSUPP, 95, "Operation not supported on transport endpoint")
    CODE(EPFNOSUPPORT, 96, "Protocol family not supported")
    CODE(EAFNOSUPPORT, 97, "Address family not supported by protocol")
    CODE(EADDRINUSE, 98, "Address already in use")
    CODE(EADDRNOTAVAIL, 99, "Cannot assign requested address")
    CODE(ENETDOWN, 100, "Network is down")
    CODE(ENETUNREACH, 101, "Network is unreachable")
    CODE(ENETRESET, 102, "Network dropped connection because of reset")
    CODE(ECONNABORTED, 103, "Software caused connection abort")
    CODE(ECONNRESET, 104, "Connection reset by peer")
    CODE(ENOBUFS, 105, "No buffer space available")
    CODE(EISCONN, 106, "Transport endpoint is already connected")
    CODE(ENOTCONN, 107, "Transport endpoint is not connected")
    CODE(ESHUTDOWN, 108, "Cannot send after transport endpoint shutdown")
    CODE(ETOOMANYREFS, 109, "Too many references: cannot splice")
    CODE(ETIMEDOUT, 110, "Connection timed out")
    CODE(ECONNREFUSED, 111, "Connection refused")
    CODE(EHOSTDOWN, 112, "Host is down")
    CODE(EHOSTUNREACH, 113, "No route to host")
    CODE(EALREADY, 114, "Operation already in progress")
    CODE(EINPROGRESS, 115, "Operation now in progress")
    CODE(ESTALE, 116, "Stale file handle")
    CODE(EUCLEAN, 117, "Structure needs cleaning")
    CODE(ENOTNAM, 118, "Not a XENIX named type file")
    CODE(ENAVAIL, 119, "No XENIX semaphores available")
    CODE(EISNAM, 120, "Is a named type file")
    CODE(EREMOTEIO, 121, "Remote I/O error")
    CODE(EDQUOT, 122, "Quota exceeded")
    CODE(ENOMEDIUM, 123, "No medium found")
    CODE(EMEDIUMTYPE, 124, "Wrong medium type")
    CODE(ECANCELED, 125, "Operation Canceled")
    CODE(ENOKEY, 126, "Required key not available")
    CODE(EKEYEXPIRED, 127, "Key has expired")
    CODE(EKEYREVOKED, 128, "Key has been revoked")
    CODE(EKEYREJECTED, 129, "Key was rejected by service")
};

static void check_code(int e)
{
    const char *got, *info = "untouched", *none;
    bfdev_errname_t *entry;
    long a = e < 0 ? -(long)e : e;
    int i;

    for (i = 0; i < (int)MC_ARRAY_SIZE(codes) && codes[i].value != a; i++)
        ;
    entry = bfdev_errname_find(e);
    got = bfdev_errname(e, &info);
    none = bfdev_errname(e, NULL);
    if (i == (int)MC_ARRAY_SIZE(codes)) {
        if (entry || got || none)
            mc_fail("%d is not an error but is named %s", e, entry ? entry->name : got);
        if (strcmp(info, "untouched"))
            mc_fail("%d is not an error but is explained", e);
        return;
    }
    mc_assert(entry && entry->errnum == a, "%d (%s) is not found", e, codes[i].name);
    mc_assert(entry->name[0] == '-' && !strcmp(entry->name + 1, codes[i].name), "%s is called %s", codes[i].name, entry->name);
    mc_assert(!strcmp(entry->info, codes[i].info), "%s means \"%s\", not \"%s\"", codes[i].name, codes[i].info, entry->info);
    mc_assert(got && got == none, "the name of %d depends on whether the text is wanted", e);
    mc_assert(!strcmp(info, codes[i].info), "%s means \"%s\", not \"%s\"", codes[i].name, codes[i].info, info);
    if (e)
        mc_assert(!strcmp(got + (e < 0), codes[i].name) && (e > 0 || *got == '-'), "%d is %s, not %s%s", e, got, e < 0 ? "-" : "", codes[i].name);
    else
        mc_assert(!strcmp(got + (*got == '-'), "ENOERR"), "0 is %s", got);
}

/* the numbers are those of the system */
static void s_table(void)
{
    int i = mc_choose(MC_ARRAY_SIZE(codes));

    mc_step("%s is %d", codes[i].name, codes[i].value);
    mc_case(i);
    mc_assert(codes[i].code == codes[i].value, "%s is %d, not %d", codes[i].name, codes[i].code, codes[i].value);
    mc_assert(!i || codes[i].value <= BFDEV_ERRNO_MAX, "%s is beyond the greatest error", codes[i].name);
    check_code(codes[i].value);
    check_code(-codes[i].value);
}

#define CHUNK (1 << 16)

/* every int, in the thorough tier; else the chunks around zero and the limits */
static void s_every(void)
{
    long chunk, v;

    if (mc_thorough) {
        chunk = mc_choose(256) << 8;
        chunk |= mc_choose(256);
    } else {
        chunk = (0x7ffa + mc_choose(12) + (mc_choose(2) << 15)) & 0xffff;
    }
    mc_step("numbers from %ld", INT_MIN + chunk * CHUNK);
    mc_case(chunk);
    for (v = INT_MIN + chunk * CHUNK; v < INT_MIN + (chunk + 1) * CHUNK; v++)
        check_code(v);
}

static void pointer(uintptr_t u, long code)
{
    const void *p = (const void *)u;
    bool err = u >= -(uintptr_t)4096;

    mc_case(u);
    mc_assert(BFDEV_IS_ERR(p) == err, "%p is %san error", p, err ? "" : "not ");
    mc_assert(BFDEV_IS_INVAL(p) == (err || !u), "%p is %svalid", p, err || !u ? "not " : "");
    mc_assert(BFDEV_PTR_ERR_ZERO(p) == (err ? (int)u : 0), "%p holds %d", p, BFDEV_PTR_ERR_ZERO(p));
    mc_assert(BFDEV_PTR_INVAL_ZERO(p) == (err ? (int)u : u ? 0 : -BFDEV_EPERM), "%p holds %d", p, BFDEV_PTR_INVAL_ZERO(p));
    if (err || !u) {
        mc_assert(BFDEV_PTR_ERR(p) == (int)u, "%p is error %d", p, BFDEV_PTR_ERR(p));
        mc_assert(BFDEV_PTR_INVAL(p) == (u ? (int)u : -BFDEV_EPERM), "%p is error %d", p, BFDEV_PTR_INVAL(p));
        mc_assert(BFDEV_ERR_PTR((int)u) == p, "error %d is %p", (int)u, BFDEV_ERR_PTR((int)u));
    }
}

static void s_pointer(void)
{
    static const uintptr_t around[] = { 0, 4096, (uintptr_t)1 << 31, (uintptr_t)1 << 32, UINTPTR_MAX >> 1, UINTPTR_MAX - 4096, UINTPTR_MAX };
    int i;

    if (mc_choose(2)) {
        uintptr_t base = around[mc_choose(MC_ARRAY_SIZE(around))];

        mc_step("pointers around %#lx", base);
        for (i = -5000; i <= 5000; i++)
            pointer(base + i, 0);
    } else {
        int b = mc_choose(64);

        mc_step("pointers of bit %d", b);
        for (i = 0; i < 64; i++) {
            pointer((uintptr_t)1 << b | (uintptr_t)1 << i, 0);
            pointer(~((uintptr_t)1 << b | (uintptr_t)1 << i), 0);
        }
    }
}

static int called, datas[2];
static void *called_with;

static int f1(void *data)
{
    called += 1;
    called_with = data;
    return 11;
}

static int f2(void *data)
{
    called += 100;
    called_with = data;
    return -22;
}

static void s_action(void)
{
    static int (*const funcs[])(void *) = { NULL, f1, f2 };
    bfdev_action_t a, b;
    int f, d, got, want, i;

    BFDEV_DEFINE_ACTION(c, f1, &datas[0]);
    called = 0;
    mc_assert(bfdev_action_call(&c) == 11 && called == 1 && called_with == &datas[0], "a defined action is not called");
    f = mc_choose(3);
    d = mc_choose(2);
    if (mc_choose(2))
        bfdev_action_init(&a, funcs[f], &datas[d]);
    else
        a = BFDEV_ACTION_INIT(funcs[f], &datas[d]);
    for (i = 0; i < mc_bound; i++) {
        switch (mc_choose(3)) {
        case 0:
            d = mc_choose(2);
            bfdev_action_update(&a, &datas[d]);
            mc_step("update to %d", d);
            break;
        case 1:
            bfdev_action_clear(&a);
            mc_step("clear");
            f = 0;
            break;
        default:
            f = mc_choose(3);
            d = mc_choose(2);
            bfdev_action_init(&a, funcs[f], &datas[d]);
            mc_step("init to %d, %d", f, d);
        }
        b = a;
        called = 0;
        got = bfdev_action_call(&a);
        want = f == 0 ? -BFDEV_ENODATA : f == 1 ? 11 : -22;
        mc_case(mc_mix(f * 2 + d, i));
        mc_assert(got == want, "the action returned %d, not %d", got, want);
        mc_assert(called == (f == 0 ? 0 : f == 1 ? 1 : 100), "the wrong function was called");
        mc_assert(!f || called_with == &datas[d], "other data was passed");
        mc_assert(a.func == b.func && a.data == b.data, "the call changed the action");
    }
    mc_assert(bfdev_cbfunc_ret0() == 0 && bfdev_cbfunc_ret1() == 1, "the dummy callbacks return something else");
    mc_assert(((long (*)(void))bfdev_dummy_ret0)() == 0 && ((long (*)(void))bfdev_dummy_ret1)() == 1, "the dummy callback pointers are swapped");
    ((void (*)(void))bfdev_dummy_noop)();
}

/* scope guards: freed once at the end of the scope, unless taken away */
static int freed[3], order[3], nfreed;
static int objects[3];

static void drop(int *object)
{
    freed[object - objects]++;
    order[nfreed++] = object - objects;
}

BFDEV_CLEAN_TEMPLATE(drop, int *, if (_T) drop(_T))

static int *take(int how, int which)
{
    int *p bfdev_clean(drop) = &objects[which];

    if (how == 0)
        return NULL;
    if (how == 1)
        bfdev_clean_return(p);
    if (how == 2) {
        int *q bfdev_clean(drop) = bfdev_clean_lasting(p);

        mc_assert(!p && q == &objects[which], "taking the object left it");
        return NULL;
    }
    {
        int *q bfdev_clean(drop) = &objects[(which + 1) % 3];

        p = NULL;
        return &objects[which];
    }
}

static void s_guard(void)
{
    int how = mc_choose(4), which = mc_choose(3), i;
    int *got;

    memset(freed, 0, sizeof(freed));
    nfreed = 0;
    mc_step("scope %d of object %d", how, which);
    mc_case(how * 4 + which);
    got = take(how, which);
    mc_assert(got == (how & 1 ? &objects[which] : NULL), "the function returned another object");
    for (i = 0; i < 3; i++)
        mc_assert(freed[i] == (how == 3 ? i == (which + 1) % 3 : how == 1 ? 0 : i == which), "object %d was freed %d times", i, freed[i]);
}

/* warnings and bugs: reported through the log exactly when their condition holds, which is looked at once */
static char said[512];
static int spoken;
static sigjmp_buf aborted;

static int hear(bfdev_log_message_t *msg, void *pdata)
{
    int len = msg->length < sizeof(said) ? msg->length : sizeof(said) - 1;

    memcpy(said, msg->buff, len);
    said[len] = 0;
    spoken++;
    return len;
}

static void on_abort(int sig)
{
    siglongjmp(aborted, 1);
}

static long reported(int kind, long value, int *looked, int *line)
{
    switch (kind) {
    case 0:
        *line = __LINE__ + 1;
        return BFDEV_WARN_ON(((*looked)++, value));
    case 1:
        *line = __LINE__ + 1;
        return BFDEV_BUG_ON(((*looked)++, value));
    case 2:
        *line = __LINE__ + 1;
        if (value) BFDEV_WARN(); else (void)0;
        break;
    case 3:
        *line = __LINE__ + 1;
        if (value) BFDEV_BUG(); else (void)0;
        break;
    case 4:
        if (value) BFDEV_WARN_MSG("careful %d %s", 42, "please"); else (void)0;
        break;
    case 5:
        if (value) BFDEV_BUG_MSG("careful %d %s", 42, "please"); else (void)0;
    }
    return !!value;
}

static void s_bug(void)
{
    static const long values[] = { 0, 1, -1, 2, 256, 1L << 16, 1L << 32, LONG_MIN };
    int kind = mc_choose(6), v = mc_choose(8);
    volatile int died = 0;
    int looked = 0, line = 0;
    bfdev_log_t saved = bfdev_log_default;
    struct sigaction act = { .sa_handler = on_abort }, old;
    volatile long got = 0;
    char where[64];

    mc_step("kind %d of %lx", kind, values[v]);
    mc_case(kind * 8 + v);
    bfdev_log_init(&bfdev_log_default, 7, 7, 0, hear, NULL);
    spoken = 0;
    said[0] = 0;
    sigaction(SIGABRT, &act, &old);
    if (sigsetjmp(aborted, 1))
        died = 1;
    else
        got = reported(kind, values[v], &looked, &line);
    sigaction(SIGABRT, &old, NULL);
    bfdev_log_default = saved;
    mc_assert(spoken == !!v, "%d records for a condition of %lx", spoken, values[v]);
    mc_assert(died == (v && (kind & 1)), "the program %s", died ? "was aborted" : "went on");
    mc_assert(died || got == !!v, "returned %ld", got);
    mc_assert(kind > 1 || looked == 1, "the condition was evaluated %d times", looked);
    if (v && kind < 4) {
        snprintf(where, sizeof(where), ":%d", line);
        mc_assert(strstr(said, where) && strstr(said, "error.c") && strstr(said, "reported"), "the report does not name its place: %s", said);
    } else if (v)
        mc_assert(!strcmp(said, "careful 42 please"), "the report says: %s", said);
}

const mc_scenario_t mc_scenarios[] = {
    { "codes", s_table, { 1, 1 }, 0, 1 },
    { "every number", s_every, { 1, 1 }, 0, 1 },
    { "pointers", s_pointer, { 1, 1 }, 0, 2 },
    { "actions", s_action, { 3, 5 }, 0, 3 },
    { "guards", s_guard, { 1, 1 }, 0, 1 },
    { "bug", s_bug, { 1, 1 }, 0, 1 },
    { NULL }
};

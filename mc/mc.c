#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

#define MAXW 16
#define KEYLEN 16384
#define TABBITS 24
#define MAXSAMP 6

typedef struct {
    volatile u64 idx;            /* index of the running case + 1; 0 = none */
    volatile u64 started;        /* ms, 0 when idle */
    volatile int done;
    u64 cases, trans, traces, counters[8];
    char key[KEYLEN];
    char samples[MAXSAMP][512];
    int nsamples;
    u64 next_sample;
} Slot;

typedef struct {
    u64 states;
    u64 table_full;
    char names[8][64];
    Slot slot[MAXW];
} Shared;

static Shared *sh;
static u64 *table;
static Slot *me;
static int my_shard = 0, n_shards = 1;
static u64 cur_idx = 0, resume_from = 0, until = ~0ull;
static bool replaying = false, case_failed = false;
static char context[600];
static int fail_fd = -1, n_fails = 0;
static char scratch[256];
const char *mc_counter_names[8];
int mc_case_timeout = 20;
int mc_tier = 0;
static int max_fails = 60;
static void publish_names(void)
{
    for (int i = 0; i < 8; i++) if (mc_counter_names[i]) snprintf(sh->names[i], sizeof sh->names[i], "%s", mc_counter_names[i]);
}

static u64 now_ms(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (u64)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

u64 mc_hash(const void *data, size_t len, u64 seed)
{
    const unsigned char *p = data;
    u64 h = 0xcbf29ce484222325ull ^ (seed * 0x9e3779b97f4a7c15ull);
    for (size_t i = 0; i < len; i++) { h ^= p[i]; h *= 0x100000001b3ull; }
    h ^= h >> 32; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
    return h;
}
u64 mc_hash_str(const char *s, u64 seed) { return mc_hash(s, strlen(s), seed); }

void mc_state(u64 h)
{
    if (table == NULL) return;
    if (h == 0) h = 1;
    u64 mask = (1ull << TABBITS) - 1;
    u64 i = h & mask;
    for (int probe = 0; probe < 4096; probe++, i = (i + 1) & mask)
    {
        u64 v = __atomic_load_n(&table[i], __ATOMIC_RELAXED);
        if (v == h) return;
        if (v == 0)
        {
            u64 zero = 0;
            if (__atomic_compare_exchange_n(&table[i], &zero, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            {
                __atomic_fetch_add(&sh->states, 1, __ATOMIC_RELAXED);
                return;
            }
            if (zero == h) return;
        }
    }
    __atomic_fetch_add(&sh->table_full, 1, __ATOMIC_RELAXED);
}
void mc_trans(u64 n) { if (me) me->trans += n; }
void mc_trace(u64 n) { if (me) me->traces += n; }
void mc_count(int s, u64 n) { if (me) me->counters[s] += n; }

/* ---------------------------------------------------------------- capture */
char *mc_out, *mc_err; size_t mc_out_len, mc_err_len;
static size_t out_cap, err_cap;
static FILE *cap_out, *cap_err, *real_out, *real_err;
static size_t cap_limit = 64u << 20;

static ssize_t cap_write(void *cookie, const char *buf, size_t n)
{
    char **b = cookie ? &mc_err : &mc_out;
    size_t *len = cookie ? &mc_err_len : &mc_out_len, *cap = cookie ? &err_cap : &out_cap;
    if (*len + n > cap_limit) return (ssize_t)n; /* runaway output: dropped, the case will time out */
    if (*len + n + 1 > *cap)
    {
        *cap = (*len + n + 1) * 2;
        char *nb = mmap(NULL, *cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (*b) { memcpy(nb, *b, *len); }
        *b = nb;
    }
    memcpy(*b + *len, buf, n);
    *len += n;
    (*b)[*len] = '\0';
    return (ssize_t)n;
}

static void capture_init(void)
{
    if (cap_out) return;
    real_out = stdout; real_err = stderr;
    cap_out = fopencookie((void *)0, "w", (cookie_io_functions_t){ .write = cap_write });
    cap_err = fopencookie((void *)1, "w", (cookie_io_functions_t){ .write = cap_write });
    setvbuf(cap_out, mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), _IOFBF, 65536);
    setvbuf(cap_err, mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), _IOFBF, 65536);
    cap_write((void *)0, "", 0);
    cap_write((void *)1, "", 0);
}

void mc_capture_begin(void)
{
    capture_init();
    fflush(cap_out); fflush(cap_err);
    mc_out_len = mc_err_len = 0;
    mc_out[0] = mc_err[0] = '\0';
    stdout = cap_out; stderr = cap_err;
}
void mc_capture_end(void)
{
    fflush(cap_out); fflush(cap_err);
    stdout = real_out; stderr = real_err;
}

/* ---------------------------------------------------------------- exit() of the code under test */
static sigjmp_buf exit_jmp;
static bool exit_armed = false;
static int exit_status;
extern void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status) __attribute__((noreturn));
void mc_exit_hook(int status) __attribute__((weak));     /* harness may look at the end of the program first */
void __wrap_exit(int status)
{
    if (mc_exit_hook) mc_exit_hook(status);
    if (exit_armed)
    {
        exit_status = status;
        exit_armed = false;
        siglongjmp(exit_jmp, 1);
    }
    if (me != NULL && me->idx != 0 && !replaying)
    {
        /* unexpected exit inside a case: seen by the supervisor as an abnormal end */
        fprintf(real_err ? real_err : stderr, "exit(%d) called by the code under test\n%s\n", status, mc_err ? mc_err : "");
        fflush(NULL);
        _exit(77);
    }
    if (replaying)
    {
        if (cap_out) mc_capture_end();
        fprintf(stderr, "exit(%d) called by the code under test\n", status);
        fflush(NULL);
        _exit(77);
    }
    __real_exit(status);
}
int mc_catch_exit(void (*fn)(void *), void *arg)
{
    exit_armed = true;
    if (sigsetjmp(exit_jmp, 0) == 0)
    {
        fn(arg);
        exit_armed = false;
        return -1;
    }
    return exit_status & 0xff;
}

/* ---------------------------------------------------------------- live heap blocks */
#if defined(__SANITIZE_ADDRESS__)
extern int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static long live;
static void mhook(const volatile void *p, size_t n) { (void)n; if (p) live++; }
static void fhook(const volatile void *p) { if (p) live--; }
static void hooks_init(void) { __sanitizer_install_malloc_and_free_hooks(mhook, fhook); }
long mc_live_blocks(void) { return live; }
#else
static void hooks_init(void) {}
long mc_live_blocks(void) { return 0; }
#endif

/* ---------------------------------------------------------------- scratch */
static void rm_rf(const char *path)
{
    DIR *d = opendir(path);
    if (d)
    {
        struct dirent *e;
        while ((e = readdir(d)))
        {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            char sub[1024];
            snprintf(sub, sizeof sub, "%s/%s", path, e->d_name);
            struct stat st;
            if (lstat(sub, &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(sub); else unlink(sub);
        }
        closedir(d);
    }
    rmdir(path);
}
static char scratch_root[200];
const char *mc_scratch(void)
{
    if (scratch[0] == 0)
    {
        snprintf(scratch, sizeof scratch, "%s/w%d-%d", scratch_root, my_shard, (int)getpid());
        mkdir(scratch, 0700);
    }
    return scratch;
}
void mc_write_file(const char *path, const void *data, size_t len)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) { perror(path); _exit(78); }
    size_t off = 0;
    while (off < len)
    {
        ssize_t n = write(fd, (const char *)data + off, len - off);
        if (n <= 0) { perror(path); _exit(78); }
        off += (size_t)n;
    }
    close(fd);
}

/* ---------------------------------------------------------------- cases */
bool mc_want(void)
{
    u64 i = cur_idx++;
    if (i < resume_from) return false;
    if (i > until) { mc_capture_begin(); mc_capture_end(); me->done = 1; _exit(0); }
    u64 x = i * 0x9e3779b97f4a7c15ull; x ^= x >> 33;
    return (int)(x % (u64)n_shards) == my_shard;
}

static void esc_write(char *dst, size_t cap, const char *s)
{
    size_t o = 0;
    for (; *s && o + 5 < cap; s++)
    {
        unsigned char c = (unsigned char)*s;
        if (c == '\\') { dst[o++] = '\\'; dst[o++] = '\\'; }
        else if (c == '\n') { dst[o++] = '\\'; dst[o++] = 'n'; }
        else if (c == '\t') { dst[o++] = '\\'; dst[o++] = 't'; }
        else if (c < 32 || c > 126) { o += (size_t)sprintf(dst + o, "\\x%02x", c); }
        else dst[o++] = (char)c;
    }
    dst[o] = 0;
}

void mc_do(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(me->key, KEYLEN, fmt, a);
    va_end(a);
    if (n >= KEYLEN) { fprintf(stderr, "case key too long\n"); _exit(78); }
    me->idx = cur_idx; /* index of this case + 1 */
    me->started = now_ms();
    case_failed = false;
    context[0] = '\0';
    mc_run(me->key);
    me->started = 0;
    me->idx = 0;
    if (me->cases == me->next_sample && me->nsamples < MAXSAMP)
    {
        esc_write(me->samples[me->nsamples++], 512, me->key);
        me->next_sample = me->next_sample * 17 + 13;
    }
    me->cases++;
}

bool mc_failed(void) { return case_failed; }

void mc_context(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    vsnprintf(context, sizeof context, fmt, a);
    va_end(a);
}

void mc_fail(const char *fmt, ...)
{
    if (case_failed) return; /* first failure of a case only */
    case_failed = true;
    char msg[4096];
    va_list a;
    va_start(a, fmt);
    vsnprintf(msg, sizeof msg - 620, fmt, a);
    va_end(a);
    if (context[0]) sprintf(msg + strlen(msg), " [%s]", context);
    if (replaying)
    {
        FILE *o = real_err ? real_err : stderr;
        fprintf(o, "FAIL %s\n", msg);
        fflush(o);
        return;
    }
    static char k[KEYLEN * 4], m[4096 * 4], line[KEYLEN * 4 + 4096 * 4 + 128];
    esc_write(k, sizeof k, me->key);
    esc_write(m, sizeof m, msg);
    int n = snprintf(line, sizeof line, "VIOL\t%llu\t%d\t%s\t%s\n", (unsigned long long)(me->idx - 1), my_shard, k, m);
    if (write(fail_fd, line, (size_t)n) != n) _exit(78);
    if (++n_fails >= max_fails) { me->started = 0; me->done = 2; _exit(0); }
}

static int errfd_for(const char *dir, int w, int flags)
{
    char p[400];
    snprintf(p, sizeof p, "%s/err%d", dir, w);
    return open(p, O_RDWR | O_CREAT | flags, 0600);
}

static pid_t spawn(const char *dir, int w, int nw, u64 resume)
{
    fflush(NULL);
    pid_t pid = fork();
    if (pid) return pid;
    my_shard = w; n_shards = nw; me = &sh->slot[w]; resume_from = resume; cur_idx = 0;
    int e = errfd_for(dir, w, O_TRUNC);
    dup2(e, 2); close(e);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0); dup2(dn, 1); close(dn);
    capture_init();
    mc_worker_init();
    publish_names();
    mc_enumerate(mc_tier);
    me->started = 0;
    if (me->done == 0) me->done = 1;
    if (scratch[0]) rm_rf(scratch);
    _exit(0);
}

static void tail_of(const char *dir, int w, char *buf, size_t cap)
{
    int fd = errfd_for(dir, w, 0);
    char tmp[60000];
    ssize_t n = read(fd, tmp, sizeof tmp - 1);
    close(fd);
    if (n < 0) n = 0;
    tmp[n] = 0;
    /* keep only the interesting beginning of a sanitizer report */
    char *p = strstr(tmp, "ERROR: AddressSanitizer");
    if (!p) p = strstr(tmp, "runtime error:");
    if (!p) p = tmp;
    snprintf(buf, cap, "%.1500s", p);
}

static long rss_mb(pid_t p)
{
    char path[64], b[200];
    snprintf(path, sizeof path, "/proc/%d/statm", (int)p);
    int fd = open(path, O_RDONLY);
    if (fd < 0) return 0;
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0) return 0;
    b[n] = 0;
    long a = 0, r = 0;
    sscanf(b, "%ld %ld", &a, &r);
    return r / 256;
}

static char *read_all(const char *path)
{
    FILE *f = fopen(path, "r");
    if (!f) return NULL;
    char *b = malloc(KEYLEN + 1);
    size_t n = fread(b, 1, KEYLEN, f);
    b[n] = 0;
    fclose(f);
    return b;
}

static void make_scratch_root(void)
{
    const char *base = getenv("MC_SCRATCH");
    snprintf(scratch_root, sizeof scratch_root, "%s/mc-%d", base ? base : "/tmp", (int)getpid());
    mkdir(scratch_root, 0700);
}

int main(int argc, char **argv)
{
    const char *outfile = NULL, *replay = NULL;
    int workers = 8, only_shard = -1;
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp(argv[i], "--thorough")) mc_tier = 1;
        else if (!strcmp(argv[i], "--out")) outfile = argv[++i];
        else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--replay-file")) replay = read_all(argv[++i]);
        else if (!strcmp(argv[i], "--shard")) only_shard = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--until")) until = strtoull(argv[++i], NULL, 10);
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    if (workers > MAXW) workers = MAXW;
    signal(SIGPIPE, SIG_IGN);
    hooks_init();
    make_scratch_root();
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    table = mmap(NULL, sizeof(u64) << TABBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (replay)
    {
        replaying = true;
        me = &sh->slot[0];
        snprintf(me->key, KEYLEN, "%s", replay);
        pid_t pid = fork();
        if (pid == 0)
        {
            capture_init();
            mc_worker_init();
            publish_names();
            mc_run(me->key);
            fflush(NULL);
            if (!case_failed) fprintf(stderr, "PASS\n");
            if (scratch[0]) rm_rf(scratch);
            _exit(case_failed ? 1 : 0);
        }
        int st = 0;
        u64 t0 = now_ms();
        while (waitpid(pid, &st, WNOHANG) == 0)
        {
            if (rss_mb(pid) > 6000) { fprintf(stderr, "FAIL memory use grows beyond 6 GB\n"); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            if (now_ms() - t0 > (u64)mc_case_timeout * 3000) { fprintf(stderr, "FAIL the code under test does not terminate\n"); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            usleep(2000);
        }
        rm_rf(scratch_root);
        if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? 0 : 1;
        fprintf(stderr, "FAIL killed by signal %d\n", WTERMSIG(st));
        return 1;
    }

    char fpath[300];
    snprintf(fpath, sizeof fpath, "%s/fails", scratch_root);
    fail_fd = open(fpath, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    pid_t pid[MAXW] = { 0 };
    int total = 0, crashes = 0, hangs = 0;
    bool stopped = false;
    unsigned polls = 0;
    for (int w = 0; w < workers; w++)
    {
        if (only_shard >= 0 && w != only_shard) continue;
        pid[w] = spawn(scratch_root, w, workers, 0);
        total++;
    }
    while (total > 0)
    {
        bool acted = false;
        for (int w = 0; w < workers; w++)
        {
            if (pid[w] == 0) continue;
            Slot *s = &sh->slot[w];
            int st;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            u64 started = s->started;
            if (r == 0)
            {
                if (++polls % 64 == 0 && started != 0 && rss_mb(pid[w]) > 3000)
                {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    char k[KEYLEN * 2];
                    esc_write(k, sizeof k, s->key);
                    dprintf(fail_fd, "CRASH\t%llu\t%d\t%s\tmemory use grows beyond 3 GB\n", (unsigned long long)(s->idx - 1), w, k);
                    crashes += 10;
                    u64 resume = s->idx;
                    s->started = 0; s->idx = 0;
                    if (crashes >= 60) { stopped = true; pid[w] = 0; total--; }
                    else pid[w] = spawn(scratch_root, w, workers, resume);
                    acted = true;
                    continue;
                }
                if (started != 0 && now_ms() > started && now_ms() - started > (u64)mc_case_timeout * 1000 && s->started == started)
                {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    char k[KEYLEN * 2];
                    esc_write(k, sizeof k, s->key);
                    dprintf(fail_fd, "HANG\t%llu\t%d\t%s\tno answer within %d s\n", (unsigned long long)(s->idx - 1), w, k, mc_case_timeout);
                    hangs++;
                    u64 resume = s->idx;
                    s->started = 0; s->idx = 0;
                    if (hangs >= 8) { stopped = true; pid[w] = 0; total--; }
                    else pid[w] = spawn(scratch_root, w, workers, resume);
                    acted = true;
                }
                continue;
            }
            acted = true;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done) { if (s->done == 2) stopped = true; pid[w] = 0; total--; continue; }
            /* abnormal end */
            char t[2000], m[8000], k[KEYLEN * 2];
            tail_of(scratch_root, w, t, sizeof t);
            esc_write(m, sizeof m, t);
            if (s->idx == 0)
            {
                dprintf(fail_fd, "BROKEN\t0\t%d\t\tworker ended outside a case (status %x): %s\n", w, st, m);
                stopped = true; pid[w] = 0; total--;
                continue;
            }
            esc_write(k, sizeof k, s->key);
            if (WIFSIGNALED(st)) dprintf(fail_fd, "CRASH\t%llu\t%d\t%s\tkilled by signal %d: %s\n", (unsigned long long)(s->idx - 1), w, k, WTERMSIG(st), m);
            else dprintf(fail_fd, "CRASH\t%llu\t%d\t%s\tended with status %d: %s\n", (unsigned long long)(s->idx - 1), w, k, WEXITSTATUS(st), m);
            crashes++;
            u64 resume = s->idx;
            s->started = 0; s->idx = 0;
            if (crashes >= 60) { stopped = true; pid[w] = 0; total--; }
            else pid[w] = spawn(scratch_root, w, workers, resume);
        }
        if (!acted) usleep(5000);
    }

    FILE *o = outfile ? fopen(outfile, "w") : stdout;
    u64 cases = 0, trans = 0, traces = 0, c[8] = { 0 };
    for (int w = 0; w < workers; w++)
    {
        Slot *s = &sh->slot[w];
        cases += s->cases; trans += s->trans; traces += s->traces;
        for (int i = 0; i < 8; i++) c[i] += s->counters[i];
        for (int i = 0; i < s->nsamples; i++) fprintf(o, "SAMPLE\t%s\n", s->samples[i]);
    }
    fprintf(o, "STAT\tcases\t%llu\nSTAT\tstates\t%llu\nSTAT\ttransitions\t%llu\nSTAT\ttraces\t%llu\nSTAT\ttable_full\t%llu\nSTAT\tcomplete\t%d\nSTAT\tworkers\t%d\n",
        (unsigned long long)cases, (unsigned long long)sh->states, (unsigned long long)trans, (unsigned long long)traces,
        (unsigned long long)sh->table_full, stopped ? 0 : 1, workers);
    for (int i = 0; i < 8; i++) if (sh->names[i][0]) fprintf(o, "STAT\t%s\t%llu\n", sh->names[i], (unsigned long long)c[i]);
    lseek(fail_fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t n;
    fflush(o);
    while ((n = read(fail_fd, buf, sizeof buf)) > 0) fwrite(buf, 1, (size_t)n, o);
    fflush(o);
    if (outfile) fclose(o);
    rm_rf(scratch_root);
    return 0;
}

/*
 * C25: every heap allocation of a run of the whole program (main included) fails once.  At each allocation the
 * process forks; the child gets NULL and must end the program with a message and a failure status, printing
 * nothing more, under the address sanitizer and with the exit handlers run; the parent goes on undisturbed.
 */
#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

const char *mc_property = "C25";
int ccalc_main(int argc, char **argv);
int __real_atexit(void (*f)(void));
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
ssize_t __real_getline(char **l, size_t *n, FILE *f);
ssize_t __real___getdelim(char **l, size_t *n, int d, FILE *f);

typedef struct { const char *arg[14]; const char *in; bool slow; } Session;
static const Session S[] = {
    { { "-c", "1+2*3", "sum(1,2,3)!", "x+y*2", "ans+@0", "(1+2)(3+4)^2", "-3", "max(x,2,y)", "f", "{1}" } },
    { { "-c", "f(x)=x^2+1", "g(x,y)=f(x)-y", "k=7", "f(3)", "g(f(2),k)", "clear f", "g(1,2)", "clear", "f(3)", "k" } },
    { { "-c", "table x^2;1;5;1", "table x;1;3;1 fold x+y;0", "ans", "table 1/x;0-1;1;1 fold x/y;0" } },
    { { "-c", "load lines", "load nested", "ans", "load nofile" } },
    { { "-c", "load simplification rules", "x+x", "x*y*2*x", "sum(1,x,2)", "deriv(x^3,x)", "a(x)=x+x", "a(b)" } },
    { { "-c", "load simplification rules", "load simplification bad", "x+x", "load simplification rules", "x+x" } },
    { { "-c", "help", "help operators", "license" } },
    { { 0 }, "1+\n(1\nf(\nf=1\nf=2\nf(x)=f(x)\nq(x)=y\nq(x)=1/0\nsin=1\nclear q\nclear sin\ntable x\ntable x+y;1;2;1\ntable x;1;1/0;1\n1/0\nx+1/0\n" },
    { { "-i", "-c", "f(x)=x" }, "f(2)\n# comment\n\nx\nquit\n5\n" },
    { { "-h" } }, { { "-v" } }, { { "--nothing" } }, { { "-q" }, "" }, { { 0 }, "1+1" },
    { { 0 }, "a(b)=b\nab(b)=2b\nabc=3\nclear ab\na(abc)\nclear a\nab=4\nab+abc\nclear\nab" },
    { { 0 }, "11111111111111111111111111111111111111111111111111111111111111111111111111111111+1\n((((((((((((((((((((1))))))))))))))))))))\nsum(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33)\n1\n2\n3\n4\n5\n6\n7\n8\n9\n" },
    { { "-c", "load simplification " REPO "/simplification.ruleset", "(x+1)^2-x", "deriv(x^2*sin(x),x)", "x+x+2*y" }, NULL, true },
};
#define NS (int)(sizeof S / sizeof *S)

static bool armed;                          /* allocations are counted */
static bool child;                          /* an allocation has failed in this process */
static int shard, nshard;
static u64 count, injected;
static void (*handlers[8])(void);
static int nhandlers;
static size_t out0, err0;                   /* printed before the failure */

static void verdict(const char *problem) { if (problem) { FILE *f = fdopen(dup(9), "w"); fprintf(f, "%s", problem); fclose(f); _exit(1); } _exit(0); }

int __wrap_atexit(void (*f)(void)) { handlers[nhandlers++] = f; return 0; }
/* the program ends: in a child this is what is judged, in the parent the end of the session */
void mc_exit_hook(int status)
{
    if (!child) return;
    while (nhandlers > 0) handlers[--nhandlers]();
    fflush(stdout);
    fflush(stderr);
    if (status == 0) verdict("the program ends with success");
    if (!strstr(mc_err + err0, "out of heap memory")) verdict("the program ends without the out-of-memory message");
    if (mc_out_len > out0) verdict("the program prints more after the failure");
    verdict(NULL);
}
static bool inject(const char *name, void *site)
{
    if (!armed) return false;
    if (child) return false;
    u64 i = count++;
    if (i % (u64)nshard != (u64)shard) return false;
    fflush(stdout);
    fflush(stderr);
    injected++;
    mc_state(mc_mix((u64)(uintptr_t)site, mc_hash_str(name, 1)));
    int p[2];
    if (pipe(p)) return false;
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(p[1], 9);
        out0 = mc_out_len; err0 = mc_err_len;
        alarm(20);
        child = true;
        return true;
    }
    close(p[1]);
    char msg[300];
    ssize_t n = read(p[0], msg, sizeof msg - 1);
    msg[n > 0 ? n : 0] = 0;
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    mc_trans(1);
    if (WIFSIGNALED(st)) mc_fail("allocation %llu (%s) fails: the program is ended by signal %d%s", (unsigned long long)i, name, WTERMSIG(st), WTERMSIG(st) == 14 ? " (it hangs)" : "");
    else if (WEXITSTATUS(st) > 1) mc_fail("allocation %llu (%s) fails: memory error (status %d)", (unsigned long long)i, name, WEXITSTATUS(st));
    else if (WEXITSTATUS(st)) mc_fail("allocation %llu (%s) fails: %s", (unsigned long long)i, name, msg);
    return false;
}
void *__wrap_malloc(size_t n) { return n && inject("malloc", __builtin_return_address(1)) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return n && m && inject("calloc", __builtin_return_address(1)) ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return n && inject("realloc", __builtin_return_address(1)) ? NULL : __real_realloc(p, n); }
ssize_t __wrap_getline(char **l, size_t *n, FILE *f)
{
    if ((*l == NULL || *n == 0) && inject("getline", __builtin_return_address(0))) { errno = ENOMEM; return -1; }
    return __real_getline(l, n, f);
}

/* what getline is when it is inlined */
ssize_t __wrap___getdelim(char **l, size_t *n, int d, FILE *f)
{
    if ((*l == NULL || *n == 0) && inject("getline", __builtin_return_address(0))) { errno = ENOMEM; return -1; }
    return __real___getdelim(l, n, d, f);
}

static int ret;
static const Session *cur;
static void go(void *a)
{
    (void)a;
    char *av[20] = { "ccalc" };
    int n = 1;
    for (int i = 0; cur->arg[i]; i++) av[n++] = strdup(cur->arg[i]);
    armed = true;
    ret = ccalc_main(n, av);
    armed = false;
    if (child) mc_exit_hook(ret);
    for (int i = 1; i < n; i++) free(av[i]);
}
static void file(const char *n, const char *s) { mc_write_file(n, s, strlen(s)); }
void mc_worker_init(void)
{
    mc_case_timeout = 300;
    mc_counter_names[0] = "allocations_failed";
    if (chdir(mc_scratch()) != 0) abort();
    #define HEAD "RULESET\n  x+y -> sum(x,y)\n  x*y -> prod(x,y)\nRULESET\nRULESET\n  sum([xs],sum([ys]),[zs]) -> sum([xs],[ys],[zs])\n  prod([xs],prod([ys]),[zs]) -> prod([xs],[ys],[zs])\nRULESET\n"
    file("lines", "f(x)=x+1\nf(2)\n\n#\nans*2\n1/0\n");
    file("nested", "load lines\n3\nload lines");
    file("rules", HEAD "  sum([xs],x,[ys],x,[zs]) -> sum([xs],2*x,[ys],[zs]) WHERE type(x) == 1\nRULESET\nRULESET\n  sum(x,y) -> x+y\n prod(x,y) -> x*y\nRULESET\n");
    file("rules2", HEAD "RULESET\nRULESET\nRULESET\n");
    file("bad", HEAD "x+x -> 2*x\nx+ -> 3\n");
}
void mc_run(const char *key)
{
    int s;
    if (sscanf(key, "%d %d %d", &s, &shard, &nshard) != 3) { mc_fail("bad key"); return; }
    cur = &S[s];
    count = injected = 0;
    nhandlers = 0;
    file("stdin", cur->in ? cur->in : "");
    int saved = dup(0), fd = open("stdin", O_RDONLY);
    dup2(fd, 0);
    close(fd);
    rewind(stdin);
    mc_capture_begin();
    mc_catch_exit(go, NULL);
    armed = false;
    while (nhandlers > 0) handlers[--nhandlers]();
    mc_capture_end();
    dup2(saved, 0);
    close(saved);
    mc_count(0, injected);
    mc_trace(injected);
}
void mc_enumerate(int thorough)
{
    for (int s = 0; s < NS; s++)
    {
        int n = S[s].slow ? 256 : 16;
        for (int k = 0; k < n; k++) if (!S[s].slow || thorough || k % 16 == 0) MC_CASE("%d %d %d", s, k, n);
    }
}

/*
 * Session driver: runs the real program entry point (compiled with -Dmain=ccalc_main) once per session in a forked
 * child, feeds standard input line by line through a custom stream and records, at every moment the program asks for
 * the next line: output so far on both channels, live heap, executed basic blocks, allocations.
 * Usage: driver BATCH OUT COVERAGE
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define EXIT_BUDGET  97
#define EXIT_HARNESS 98
#define MAX_REC 4096
#define COVMAP 65536

int ccalc_main(int argc, char **argv);

typedef struct {
    uint64_t out, err;
    int64_t live_blocks, live_bytes;
    uint64_t steps, allocs;
} Rec;

typedef struct {
    uint64_t num_rec;       // snapshots taken when input was requested
    uint64_t finished;      // 1: exit handlers of program ran
    uint64_t budget_hit;
    uint64_t eof_seen;
    uint64_t failed_allocs;
    Rec rec[MAX_REC + 2];
    Rec final;
    uint8_t cov[COVMAP];
} Shared;

static Shared *sh;

/* ~~~ instrumentation ~~~ */
#define MAX_LIVE (600 << 20)  /* more memory than any session needs: as good as a session that never ends */
static volatile int counting = 0;
static int64_t live_blocks, live_bytes;
static uint64_t steps, budget, allocs, fail_at;
static int force_tty;
static uint64_t fake_time;

void __sanitizer_cov_trace_pc(void)
{
    if (!counting) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&ccalc_main;
    sh->cov[(pc ^ (pc >> 16)) & (COVMAP - 1)] = 1;
    if (++steps > budget)
    {
        sh->budget_hit = 1;
        _exit(EXIT_BUDGET);
    }
}

size_t __sanitizer_get_allocated_size(const volatile void *p) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));

static void on_malloc(const volatile void *p, size_t size)
{
    if (!counting || p == NULL) return;
    live_blocks++;
    live_bytes += size;
    if (live_bytes > MAX_LIVE)
    {
        sh->budget_hit = 2;
        _exit(EXIT_BUDGET);
    }
}

static void on_free(const volatile void *p)
{
    if (!counting || p == NULL) return;
    live_blocks--;
    live_bytes -= __sanitizer_get_allocated_size(p);
}

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_isatty(int);
time_t __real_time(time_t *);

static int should_fail(void)
{
    if (!counting) return 0;
    allocs++;
    if (allocs == fail_at)
    {
        sh->failed_allocs++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *__wrap_malloc(size_t n) { return should_fail() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return should_fail() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return should_fail() ? NULL : __real_realloc(p, n); }
int __wrap_isatty(int fd) { return counting && fd <= 2 ? (fd == 2 ? 0 : force_tty) : __real_isatty(fd); }

/* Extreme random numbers are too rare to wait for: one draw in rare_draws yields one */
int __real_rand(void);
long __real_random(void);
static uint32_t rare_draws, rare_state;
static int rare(long *v)
{
    static const long values[] = { 0, 2147483647, 2147483647, 2147483646, 1, 1073741824, 1073741823 };
    if (!counting || rare_draws == 0) return 0;
    rare_state = rare_state * 1664525u + 1013904223u;
    if ((rare_state >> 8) % rare_draws != 0) return 0;
    *v = values[(rare_state >> 4) % 7];
    return 1;
}
int __wrap_rand(void) { long v; return rare(&v) ? (int)v : __real_rand(); }
long __wrap_random(void) { long v; return rare(&v) ? v : __real_random(); }

time_t __wrap_time(time_t *t)
{
    if (!counting) return __real_time(t);
    if (t != NULL) *t = (time_t)fake_time;
    return (time_t)fake_time;
}

/* ~~~ session ~~~ */
typedef struct { uint32_t len; char *data; } Bytes;
typedef struct {
    uint32_t nargs, nlines, tty, timeout;
    uint64_t budget, fail_at, time;
    Bytes cwd;
    Bytes *args, *lines;
} Session;

static uint32_t next_line;
static size_t next_offset;
static Session *cur;

static void snapshot(Rec *r)
{
    int c = counting;
    counting = 0;
    fflush(stdout);
    r->out = lseek(1, 0, SEEK_CUR);
    r->err = lseek(2, 0, SEEK_CUR);
    r->live_blocks = live_blocks;
    r->live_bytes = live_bytes;
    r->steps = steps;
    r->allocs = allocs;
    counting = c;
}

static ssize_t cookie_read(void *cookie, char *buf, size_t size)
{
    (void)cookie;
    if (next_offset == 0 && !sh->eof_seen)
    {
        if (sh->num_rec <= MAX_REC) snapshot(&sh->rec[sh->num_rec++]);
    }
    if (next_line >= cur->nlines)
    {
        sh->eof_seen = 1;
        return 0;
    }
    Bytes *b = &cur->lines[next_line];
    size_t n = b->len - next_offset;
    if (n > size) n = size;
    memcpy(buf, b->data + next_offset, n);
    next_offset += n;
    if (next_offset == b->len)
    {
        next_line++;
        next_offset = 0;
    }
    return n;
}

static void at_end(void)
{
    sh->finished = 1;
    snapshot(&sh->final);
}

static char out_buf[1 << 16], in_buf[1 << 16];

static void run_child(Session *s, int fd_out, int fd_err)
{
    cur = s;
    if (s->cwd.len > 0 && chdir(s->cwd.data) != 0) _exit(EXIT_HARNESS);
    int null = open("/dev/null", O_RDONLY);
    dup2(null, 0);
    dup2(fd_out, 1);
    dup2(fd_err, 2);
    setvbuf(stdout, out_buf, _IOFBF, sizeof(out_buf));
    static cookie_io_functions_t funcs = { .read = cookie_read };
    FILE *in = fopencookie(NULL, "r", funcs);
    if (in == NULL) _exit(EXIT_HARNESS);
    setvbuf(in, in_buf, _IOFBF, sizeof(in_buf));
    stdin = in;
    char **argv = __real_malloc(sizeof(char*) * (s->nargs + 2));
    argv[0] = "ccalc";
    for (uint32_t i = 0; i < s->nargs; i++) argv[i + 1] = s->args[i].data;
    argv[s->nargs + 1] = NULL;
    struct rlimit rl = { 24u << 20, 24u << 20 };
    setrlimit(RLIMIT_FSIZE, &rl);
    rl = (struct rlimit){ 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    atexit(at_end);
    budget = s->budget;
    fail_at = s->fail_at;
    force_tty = s->tty & 0xff;
    rare_draws = s->tty >> 8;
    fake_time = s->time;
    rare_state = (uint32_t)s->time;
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    alarm(s->timeout);
    counting = 1;
    exit(ccalc_main(s->nargs + 1, argv));
}

static char *batch, *pos;
static uint32_t r32(void) { uint32_t v; memcpy(&v, pos, 4); pos += 4; return v; }
static uint64_t r64(void) { uint64_t v; memcpy(&v, pos, 8); pos += 8; return v; }
static Bytes rbytes(void)
{
    Bytes b;
    b.len = r32();
    b.data = __real_malloc(b.len + 1);
    memcpy(b.data, pos, b.len);
    b.data[b.len] = '\0';
    pos += b.len;
    return b;
}

static void w(FILE *f, const void *p, size_t n) { if (fwrite(p, 1, n, f) != n) _exit(EXIT_HARNESS); }
static void copy_fd(FILE *f, int fd)
{
    uint64_t size = lseek(fd, 0, SEEK_END);
    char buf[65536];
    w(f, &size, 8);
    lseek(fd, 0, SEEK_SET);
    while (size > 0)
    {
        ssize_t n = read(fd, buf, size < sizeof(buf) ? size : sizeof(buf));
        if (n <= 0) _exit(EXIT_HARNESS);
        w(f, buf, n);
        size -= n;
    }
}

int main(int argc, char **argv)
{
    if (argc != 4) return EXIT_HARNESS;
    int fd = open(argv[1], O_RDONLY);
    off_t size = lseek(fd, 0, SEEK_END);
    batch = pos = mmap(NULL, size, PROT_READ, MAP_PRIVATE, fd, 0);
    FILE *out = fopen(argv[2], "w");
    sh = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (out == NULL || sh == MAP_FAILED || batch == MAP_FAILED) return EXIT_HARNESS;
    uint32_t n = r32(), stuck = 0;
    int impatient = n >> 31;
    n &= 0x7fffffff;
    for (uint32_t i = 0; i < n; i++)
    {
        Session s;
        s.tty = r32();
        s.timeout = r32();
        s.budget = r64();
        /* after some sessions that did not end the others need not be waited for as long */
        if (impatient && stuck >= 4 && s.budget > 250000000) s.budget = 250000000;
        if (impatient && stuck >= 10 && s.timeout > 5) s.timeout = 5;
        s.fail_at = r64();
        s.time = r64();
        s.cwd = rbytes();
        s.nargs = r32();
        s.args = __real_malloc(sizeof(Bytes) * (s.nargs + 1));
        for (uint32_t j = 0; j < s.nargs; j++) s.args[j] = rbytes();
        s.nlines = r32();
        s.lines = __real_malloc(sizeof(Bytes) * (s.nlines + 1));
        for (uint32_t j = 0; j < s.nlines; j++) s.lines[j] = rbytes();

        memset(sh, 0, offsetof(Shared, cov));
        int fd_out = memfd_create("out", 0), fd_err = memfd_create("err", 0);
        fflush(out);
        pid_t pid = fork();
        if (pid < 0) return EXIT_HARNESS;
        if (pid == 0)
        {
            run_child(&s, fd_out, fd_err);
            _exit(EXIT_HARNESS);
        }
        int status;
        while (waitpid(pid, &status, 0) < 0) if (errno != EINTR) return EXIT_HARNESS;
        uint32_t st = status;
        stuck += sh->budget_hit != 0 || (WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGXFSZ));
        w(out, &st, 4);
        w(out, &sh->finished, 8);
        w(out, &sh->budget_hit, 8);
        w(out, &sh->failed_allocs, 8);
        w(out, &sh->final, sizeof(Rec));
        w(out, &sh->num_rec, 8);
        w(out, sh->rec, sizeof(Rec) * sh->num_rec);
        copy_fd(out, fd_out);
        copy_fd(out, fd_err);
        close(fd_out);
        close(fd_err);
        for (uint32_t j = 0; j < s.nargs; j++) free(s.args[j].data);
        for (uint32_t j = 0; j < s.nlines; j++) free(s.lines[j].data);
        free(s.cwd.data);
        free(s.args);
        free(s.lines);
    }
    fclose(out);
    FILE *cov = fopen(argv[3], "w");
    if (cov == NULL || fwrite(sh->cov, 1, COVMAP, cov) != COVMAP) return EXIT_HARNESS;
    fclose(cov);
    return 0;
}

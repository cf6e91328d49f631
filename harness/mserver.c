/* Fork server around the real runtime.

   Starts the interpreter the way src/boot/c/minim.c does (prelude, optionally boot.min,
   optionally a module imported ahead of time) and then runs each job in a forked child, so
   every job starts from the same freshly booted state and a crash, hang or exit() ends only
   its own job.

   stdin, one job per line, tab separated:
       ID MODE PATH OUT ERR STDIN CWD CPU_S MEM_MB
   stdout, one line per finished job:
       ID exit N | ID signal N | ID timeout | ID memory
   Modes: load    what "minim --no-libs PATH" does: eval (load PATH)
          import  what "minim PATH" does: eval (import PATH)
          repl    what "minim -i" does, reading from STDIN file
          readw   read every datum of PATH with the C reader, write each with the C printer
          fasl    read every datum of PATH with the C reader, push through write_fasl and
                  read_fasl (one stream), write each result with the C printer
          evalw   read, check, eval and write the value(s) of every form of PATH
 */
#define _GNU_SOURCE
#include "src/core/minim.h"
#include "src/boot/boot.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern unsigned long long vp_alloc_count, vp_alloc_bytes, vp_alloc_limit, vp_gc_count, vp_big_allocs, vp_live_peak;
void vp_gc_arm(void);
extern void vp_gc_settle(void);
#pragma weak vp_gc_settle
extern unsigned long long vp_freed;
#pragma weak vp_freed

#include "bootcfg.h"      /* BOOT_DIR of this build */

#define MAXJ 64
static struct slot { pid_t pid; char id[64]; double deadline; int killed; } slots[MAXJ];
static int nslots;

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void write_value(mobj tc, mobj v) {
    if (minim_valuesp(v)) {
        for (size_t i = 0; i < tc_vc(tc); ++i) {
            write_object(stdout, tc_values(tc)[i]);
            printf("\n");
        }
        printf("#<%lu values>\n", (unsigned long) tc_vc(tc));
    } else {
        write_object(stdout, v);
        printf("\n");
    }
}

static FILE *xopen(const char *p, const char *m) {
    FILE *f = fopen(p, m);
    if (!f) { fprintf(stderr, "VP-HARNESS: cannot open %s\n", p); _exit(99); }
    return f;
}

extern mobj Mgensym(const char *);
#pragma weak Mgensym

static void run_job(const char *mode, const char *path) {
    mobj tc = current_tc(), o, v;
    FILE *f;

    char *at = strchr(mode, '@');       /* MODE@PERIOD,SEED,OLD: a schedule of collections for this job */
    if (at) {
        char *f[3], *q = at + 1;
        for (int i = 0; i < 3; i++) f[i] = q ? strsep(&q, ",") : "";
        setenv("VP_GC_PERIOD", f[0], 1);
        setenv("VP_GC_SEED", f[1], 1);
        if (*f[2] == '1') setenv("VP_GC_OLD", "1", 1);
        *at = 0;
    }
    vp_gc_arm();
    if (!strcmp(mode, "load")) {
        eval_expr(tc, Mcons(intern("load"), Mcons(Mstring(path), minim_null)));
    } else if (!strcmp(mode, "import")) {
        eval_expr(tc, Mcons(intern("import"), Mcons(Mstring(path), minim_null)));
    } else if (!strcmp(mode, "repl")) {
        while (1) {
            printf("> ");
            o = read_object(stdin);
            if (o == NULL) break;
            check_expr(o);
            v = eval_expr(tc, o);
            if (!minim_voidp(v)) {
                if (minim_valuesp(v)) {
                    for (size_t i = 0; i < tc_vc(tc); ++i) {
                        write_object(stdout, tc_values(tc)[i]);
                        printf("\n");
                    }
                } else {
                    write_object(stdout, v);
                    printf("\n");
                }
            }
        }
    } else if (!strcmp(mode, "readw")) {
        f = xopen(path, "r");
        while ((o = read_object(f)) != NULL) {
            write_object(stdout, o);
            printf("\n");
        }
        printf("#<end>\n");
        fclose(f);
    } else if (!strcmp(mode, "gensym")) {
        // the name the next generated symbol would have (a hint for the generators only)
        if (Mgensym) write_object(stdout, Mgensym("t"));
        fprintf(stdout, "\n");
    } else if (!strcmp(mode, "fasl")) {
        FILE *g = tmpfile();
        long n = 0, m = 0;
        f = xopen(path, "r");
        while ((o = read_object(f)) != NULL) {
            write_fasl(g, o);
            n++;
        }
        fclose(f);
        rewind(g);
        for (; m < n; m++) {
            o = read_fasl(g);
            write_object(stdout, o);
            printf("\n");
        }
        printf("#<end %d>\n", fgetc(g) == EOF);
    } else if (!strcmp(mode, "evalw")) {
        f = xopen(path, "r");
        while ((o = read_object(f)) != NULL) {
            check_expr(o);
            write_value(tc, eval_expr(tc, o));
        }
        printf("#<end>\n");
        fclose(f);
    } else {
        fprintf(stderr, "VP-HARNESS: bad mode %s\n", mode);
        _exit(99);
    }
    fflush(stdout);
}

static void redirect(const char *path, int fd, int flags) {
    int d = open(path, flags, 0644);
    if (d < 0) _exit(98);
    dup2(d, fd);
    close(d);
}

static int xnjobs;
static FILE *proto;
static void reap(int block) {
    int st, i;
    for (;;) {
        int got = 0;
        for (i = 0; i < nslots; i++) {
            pid_t p;
            if (!slots[i].pid) continue;
            p = waitpid(slots[i].pid, &st, WNOHANG);
            if (p == slots[i].pid) {
                got = 1;
                if (slots[i].killed || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU))
                    fprintf(proto, "%s\ttimeout\n", slots[i].id);
                else if (WIFSIGNALED(st)) fprintf(proto, "%s\tsignal %d\n", slots[i].id, WTERMSIG(st));
                else if (WEXITSTATUS(st) == 77) fprintf(proto, "%s\tmemory\n", slots[i].id);
                else fprintf(proto, "%s\texit %d\n", slots[i].id, WEXITSTATUS(st));
                fflush(proto);
                slots[i].pid = 0;
                xnjobs--;
            } else if (now() > slots[i].deadline && !slots[i].killed) {
                slots[i].killed = 1;
                kill(slots[i].pid, SIGKILL);
            }
        }
        if (got || !block || xnjobs == 0) return;
        { struct timespec ts = {0, 300000}; nanosleep(&ts, 0); }
    }
}

static void stats(void) {
    fprintf(stderr, "\nVP-STATS allocs=%llu bytes=%llu gcs=%llu segs=%llu live=%llu freed=%llu\n",
            vp_alloc_count, vp_alloc_bytes, vp_gc_count, vp_big_allocs, vp_live_peak, &vp_freed ? vp_freed : 0);
}

/* reads one job line; keeps reaping finished jobs while it waits */
static int next_line(int fd, char *line, size_t cap) {
    static char *buf;
    if (!buf) buf = malloc(1 << 16);
    static size_t have;
    for (;;) {
        char *nl = memchr(buf, '\n', have);
        if (nl) {
            size_t n = nl - buf + 1;
            if (n >= cap) _exit(99);
            memcpy(line, buf, n);
            line[n] = 0;
            memmove(buf, buf + n, have - n);
            have -= n;
            return 1;
        }
        struct pollfd pf = {fd, POLLIN, 0};
        int r = poll(&pf, 1, xnjobs ? 1 : 1000);
        if (xnjobs) reap(0);
        if (r > 0) {
            ssize_t k = read(fd, buf + have, (1 << 16) - have);
            if (k <= 0) return 0;
            have += k;
        }
    }
}

int main(int argc, char **argv) {
    volatile int stack_top = 0;
    int i, boot = 0, jobs = 8;
    const char *preload = 0;
    static char *line;
    line = malloc(1 << 16);
    struct rlimit rl;

    if (!getenv("VP_NOASLR") && personality(0xffffffff) >= 0 &&
        !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        setenv("VP_NOASLR", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0)
            execv("/proc/self/exe", argv);
    }
    rl.rlim_cur = rl.rlim_max = RLIM_INFINITY;
    rl.rlim_cur = 0; rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--boot")) boot = 1;
        else if (!strcmp(argv[i], "--preload")) preload = argv[++i];
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
    }
    if (jobs > MAXJ) jobs = MAXJ;
    nslots = jobs;

    /* keep the job protocol off the FILE objects the runtime uses */
    FILE *jobf = fdopen(dup(0), "r"), *outf = fdopen(dup(1), "w");
    proto = outf;
    redirect("/dev/null", 0, O_RDONLY);
    redirect("/dev/null", 1, O_WRONLY);

    GC_init(((void *) &stack_top));
    minim_boot_init();
    load_prelude(current_tc());
    if (boot) {
        char *old = get_current_dir();
        set_current_dir(BOOT_DIR);
        load_file(current_tc(), "boot.min");
        set_current_dir(old);
    }
    if (preload)
        eval_expr(current_tc(), Mcons(intern("import"), Mcons(Mstring(preload), minim_null)));
    if (vp_gc_settle) vp_gc_settle();
    fprintf(outf, "ready %llu %llu\n", vp_alloc_count, vp_alloc_bytes);
    fflush(outf);

    while (next_line(fileno(jobf), line, (1 << 16))) {
        char *fld[9], *p = line;
        int n = 0, s;
        line[strcspn(line, "\n")] = 0;
        while (n < 9 && p) fld[n++] = strsep(&p, "\t");
        if (n < 9) { fprintf(stderr, "VP-HARNESS: bad job line\n"); return 99; }
        while (xnjobs >= jobs) reap(1);
        for (s = 0; slots[s].pid; s++) ;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 99; }
        if (pid == 0) {
            close(fileno(jobf)); close(fileno(outf));
            double cpu = atof(fld[7]);
            long mem = atol(fld[8]);
            char cwd[8192];
            redirect(fld[3], 1, O_WRONLY | O_CREAT | O_TRUNC);
            redirect(fld[4], 2, O_WRONLY | O_CREAT | O_TRUNC);
            redirect(fld[5], 0, O_RDONLY);
            rl.rlim_cur = (rlim_t) (cpu + 0.999);
            rl.rlim_max = rl.rlim_cur + 2;
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 64 << 20;
            setrlimit(RLIMIT_FSIZE, &rl);
            if (getenv("VP_NOFILE")) {
                rl.rlim_cur = rl.rlim_max = atoi(getenv("VP_NOFILE"));
                setrlimit(RLIMIT_NOFILE, &rl);
            }
            if (mem > 0) {
                vp_alloc_count = vp_alloc_bytes = vp_big_allocs = vp_gc_count = 0;
#if defined(VP_GC_MALLOC) || defined(VP_GC_QUAR) || defined(VP_GC_MINIM)
                vp_alloc_limit = (unsigned long long) mem << 20;
#else
                rl.rlim_cur = rl.rlim_max = ((rlim_t) mem) << 20;
                setrlimit(RLIMIT_AS, &rl);
#endif
            }
            if (chdir(fld[6]) || !getcwd(cwd, sizeof cwd)) _exit(98);
            set_current_dir(cwd);
            if (getenv("VP_STATS")) atexit(stats);
            run_job(fld[1], fld[2]);
            fflush(stdout);
            exit(0);
        }
        slots[s].pid = pid;
        slots[s].killed = 0;
        snprintf(slots[s].id, sizeof slots[s].id, "%s", fld[0]);
        slots[s].deadline = now() + 10 * atof(fld[7]) + 20;
        xnjobs++;
        reap(0);
    }
    while (xnjobs > 0) reap(1);
    return 0;
}

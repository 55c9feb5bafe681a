/* Runs host scripts against the VM library (src/vm/vm.c) through its public
 * API and logs everything visible at that interface.
 *
 *   vmh CASES OUT PLACE PAINT
 *
 * CASES: text, see tools/vmcases.py.  OUT: one JSON array of events per case.
 * PLACE: R or L: memory blocks end (R) or start (L) at an inaccessible page.
 * PAINT: byte used to fill fresh allocations and the host stack.
 *
 * Every block handed to the library lies in the middle of a large
 * inaccessible reservation, so that any access outside it faults.  The cases
 * run in a child process; a child killed by a signal yields a crash event for
 * the case it was running and the next child continues behind it.
 *
 * Cases with FILE and MOD lines run in a directory of their own, with those
 * files around the modules, and what the library prints on standard output
 * (the profile report and the execution trace of a debug build) is logged. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <alloca.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vm.h"

enum { SYS = 1, RET, ERR, ALLOC, FREE, CREATED, FREED, MEM, CRASH, TIMEOUT, CAP, VAL, END, CANARY, WEIRD, LINE, TOTAL, OTHER, REPORTED,
       T_OP = 20, T_ENTER, T_LEAVE, T_SYS };
#define NVM 4
#define MAXIMG 64
#define LOGSZ (8u << 20)
#define EVCAP 400
#define PAGE 4096ul
#define HALF (18ul << 30)

static struct { volatile long cur; volatile long len; volatile int nev; char buf[LOGSZ]; } *sh;
static char place = 'R';
static int paint = 0xA5;
static vm_t vms[NVM + 2];
static struct { uint8_t *p; int n; } img[MAXIMG];
static int nimg, failAt, depth;

static void raw(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (sh->len < (long)LOGSZ - 4096)
        sh->len += vsnprintf(sh->buf + sh->len, 2048, fmt, ap);
    va_end(ap);
}
static void drain(int profile);
static int capture;
static void ev(int n, const int *v)
{
    int i;
    if (capture == 1) drain(0);
    if (++sh->nev > EVCAP) {
        raw("%s[%d]", sh->len ? "," : "", CAP);
        _exit(78);
    }
    raw("%s[", sh->len ? "," : "");
    for (i = 0; i < n; i++)
        raw("%s%d", i ? "," : "", v[i]);
    raw("]");
}
#define EV(...) do { int v_[] = { __VA_ARGS__ }; ev(sizeof v_ / sizeof *v_, v_); } while (0)

/* ---- captured output ---- */
static int memfd = -1, nullfd = -1, ntrace;
static const char *names[] = { "UNDEF", "IGNORE", "BREAK", "ENTER", "LEAVE", "CALL", "PUSH", "POP", "CONST", "LOCAL", "JUMP",
    "EQ", "NE", "LTI", "LEI", "GTI", "GEI", "LTU", "LEU", "GTU", "GEU", "EQF", "NEF", "LTF", "LEF", "GTF", "GEF", "LOAD1", "LOAD2",
    "LOAD4", "STORE1", "STORE2", "STORE4", "ARG", "BLOCK_COPY", "SEX8", "SEX16", "NEGI", "ADD", "SUB", "DIVI", "DIVU", "MODI", "MODU",
    "MULI", "MULU", "BAND", "BOR", "BXOR", "BCOM", "LSH", "RSHI", "RSHU", "NEGF", "ADDF", "SUBF", "DIVF", "MULF", "CVIF", "CVFI" };
static void textEv(int n, const int *v, const char *s)
{
    int i;
    if (++ntrace > 6000) { raw("%s[%d]", sh->len ? "," : "", CAP); _exit(78); }
    raw("%s[", sh->len ? "," : "");
    for (i = 0; i < n; i++) raw("%s%d", i ? "," : "", v[i]);
    if (s) for (; *s; s++) raw(",%d", *(unsigned char *)s);
    raw("]");
}
#define TEV(s, ...) do { int v_[] = { __VA_ARGS__ }; textEv(sizeof v_ / sizeof *v_, v_, s); } while (0)
static void oneLine(char *q, int profile)
{
    int a, b, k, n = 0;
    while (*q == ' ') q++;
    if (profile) {
        if (sscanf(q, "%d%% %d %n", &a, &b, &n) == 2 && n) TEV(q + n, LINE, a, b);
        else if (sscanf(q, "%d total%n", &a, &n) == 1 && n && !q[n]) TEV(NULL, TOTAL, a);
        else TEV(NULL, OTHER);
        return;
    }
    if (sscanf(q, "%d---> systemcall(%d)%n", &a, &b, &n) == 2 && n) TEV(NULL, T_SYS, a, b);
    else if (sscanf(q, "%d---> %n", &a, &n) == 1 && n) TEV(q + n, T_ENTER, a);
    else if (sscanf(q, "%d<--- %n", &a, &n) == 1 && n) TEV(q + n, T_LEAVE, a);
    else if (sscanf(q, "%d OP_%n", &a, &n) == 1 && n) {
        for (k = 0; k < (int)(sizeof names / sizeof *names); k++)
            if (!strcmp(names[k], q + n)) break;
        TEV(NULL, T_OP, a, k);
    }
}
/* profile: 1 report, 0 trace, -1 discard */
static void drain(int profile)
{
    static char buf[1 << 20];
    ssize_t n, k, b;
    if (fflush(stdout)) return;
    if (lseek(memfd, 0, SEEK_CUR) == 0) return;
    n = pread(memfd, buf, sizeof buf - 1, 0);
    if (ftruncate(memfd, 0)) return;
    lseek(memfd, 0, SEEK_SET);
    if (profile < 0) return;
    for (k = b = 0; k < n; k++)
        if (buf[k] == '\n') { buf[k] = 0; oneLine(buf + b, profile); b = k + 1; }
    if (b < n) { buf[n] = 0; oneLine(buf + b, profile); }
}

static int vmIndex(const vm_t *vm)
{
    int i;
    for (i = 1; i <= NVM; i++)
        if (vm == &vms[i]) return i;
    return -1;
}

/* ---- guarded memory ---- */
typedef struct blk { struct blk *next; uint8_t *res, *pages, *p; size_t npg, size; vm_t *vm; int type; } blk;
static blk *blocks;

static blk *galloc(size_t size)
{
    blk *b = calloc(1, sizeof *b);
    size_t npg = (size + PAGE - 1) / PAGE;
    if (!npg) npg = 1;
    b->res = mmap(0, 2 * HALF + npg * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b->res == MAP_FAILED) { perror("mmap"); _exit(99); }
    b->pages = b->res + HALF;
    if (mprotect(b->pages, npg * PAGE, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(99); }
    b->npg = npg;
    b->size = size;
    b->p = place == 'R' ? b->pages + npg * PAGE - size : b->pages;
    memset(b->pages, 0xC5, npg * PAGE);
    memset(b->p, paint, size);
    return b;
}
static int canaryOK(const blk *b)
{
    const uint8_t *q;
    for (q = b->pages; q < b->p; q++) if (*q != 0xC5) return 0;
    for (q = b->p + b->size; q < b->pages + b->npg * PAGE; q++) if (*q != 0xC5) return 0;
    return 1;
}
static void grelease(blk *b)
{
    munmap(b->res, 2 * HALF + b->npg * PAGE);
    free(b);
}
void *Com_malloc(size_t size, vm_t *vm, vmMallocType_t type)
{
    blk *b;
    if (size > (64u << 20)) { EV(WEIRD, 1); return NULL; }
    if (failAt && --failAt == 0) {
        EV(ALLOC, vmIndex(vm), type, 0);
        return NULL;
    }
    EV(ALLOC, vmIndex(vm), type, 1);
    b = galloc(size);
    b->vm = vm; b->type = type;
    b->next = blocks; blocks = b;
    return b->p;
}
void Com_free(void *p, vm_t *vm, vmMallocType_t type)
{
    blk **q, *b;
    for (q = &blocks; *q; q = &(*q)->next)
        if ((*q)->p == p) break;
    b = *q;
    EV(FREE, vmIndex(vm), type, b && b->vm == vm && b->type == (int)type);
    if (b) {
        if (!canaryOK(b)) EV(CANARY);
        *q = b->next;
        grelease(b);
    }
}
void Com_Error(vmErrorCode_t level, const char *error)
{
    if (!error) EV(WEIRD, 2);
    EV(ERR, level);
}

/* ---- host operations ---- */
static intptr_t syscalls(vm_t *vm, intptr_t *args);

static void __attribute__((noinline)) paintStack(void)
{
    volatile char *p = alloca(24000);
    memset((void *)p, paint, 24000);
    __asm__ volatile("" ::"r"(p) : "memory");
}
static intptr_t doCall(int i, const int *a)
{
    intptr_t r;
    if (depth > 30) { raw("%s[%d]", sh->len ? "," : "", CAP); _exit(78); }
    depth++;
    if (depth == 1) paintStack();
    r = VM_Call(&vms[i], a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    depth--;
    if (r != (int)r) EV(WEIRD, 3);
    EV(RET, i, (int)r, vms[i].lastError);
    return r;
}
static char *mods[16];
static int doCreate(int i, int g, int fail, int mod)
{
    int r, old = capture;
    failAt = fail;
    if (depth == 0) paintStack();
    if (old) { drain(0); capture = 2; }
    r = VM_Create(&vms[i], mod ? mods[mod] : "case", img[g].p, img[g].n, syscalls);
    if (old) { drain(-1); capture = old; }
    failAt = 0;
    EV(CREATED, i, r, r ? 0 : vms[i].lastError);
    return r;
}
static void doFree(int i)
{
    VM_Free(&vms[i]);
    EV(FREED, i, vms[i].lastError);
}
static void doDump(int i)
{
    int k, n;
    if (++sh->nev > EVCAP) { raw("%s[%d]", sh->len ? "," : "", CAP); _exit(78); }
    raw("%s[%d,%d", sh->len ? "," : "", MEM, i);
    if (vms[i].dataBase) {
        n = (vms[i].dataMask + 1) / 4;
        for (k = 0; k < n; k++) {
            int w;
            memcpy(&w, vms[i].dataBase + 4 * k, 4);
            raw(",%d", w);
        }
    }
    raw("]");
}

static intptr_t syscalls(vm_t *vm, intptr_t *args)
{
    int v[18], k, i = vmIndex(vm), a[16];
    uint8_t *p;
    v[0] = SYS; v[1] = i;
    for (k = 0; k < 16; k++) {
        v[2 + k] = a[k] = (int)args[k];
        if (args[k] != a[k]) EV(WEIRD, 4);
    }
    ev(18, v);
    switch (a[0]) {
    case 0: return 0;
    case 1: return args[1];
    case 2:
        p = VMA(1, vm);
        if (!p) return -1;
        *p = (uint8_t)a[2];
        return 0;
    case 3:
        p = VMA(1, vm);
        return p ? *p : -1;
    case 4: return VM_MemoryRangeValid(args[1], args[2], vm);
    case 5:
        if (VM_MemoryRangeValid(args[1], args[3], vm)) return -1;
        memset(VMA(1, vm), a[2], args[3]);
        return 0;
    case 6:
        if (VM_MemoryRangeValid(args[1], args[3], vm)) return -1;
        if (VM_MemoryRangeValid(args[2], args[3], vm)) return -1;
        memmove(VMA(1, vm), VMA(2, vm), args[3]);
        return 0;
    case 7: { int b[13]; for (k = 0; k < 13; k++) b[k] = a[k + 1]; return doCall(i, b); }
    case 8: doFree(i); return 0;
    case 9:
        if (a[1] < 1 || a[1] > NVM) return 0;
        { int b[13]; for (k = 0; k < 13; k++) b[k] = a[k + 2]; return doCall(a[1], b); }
    case 10:
        if (a[1] < 1 || a[1] > NVM || a[2] < 1 || a[2] >= nimg || vms[a[1]].dataBase) return 0;
        return doCreate(a[1], a[2], 0, 0);
    case 11:
        if (a[1] < 1 || a[1] > NVM) return 0;
        doFree(a[1]);
        return 0;
    case 12: return VM_FloatToInt(VMF(1));
    case 13: return (intptr_t)((uint64_t)(uint32_t)a[1] | 0x5a5a5a5a00000000ull);
    case 14: doDump(i); return 0;
    default: return args[1];
    }
}
static void doOp(const int *o, int n)
{
    intptr_t a, r;
    size_t len;
    int i = o[1];
    (void)n;
    switch (o[0]) {
    case 1: if (!vms[i].dataBase) doCreate(i, o[2], o[3], o[4]); break; /* never over a loaded VM */
    case 2: doCall(i, o + 2); break;
    case 3: doFree(i); break;
    case 4: doDump(i); break;
    case 5: {
        uint8_t *p = VM_ArgPtr((intptr_t)o[2], &vms[i]);
        EV(VAL, p ? (int)(p - vms[i].dataBase) : -1);
        break;
    }
    case 6:
        a = (intptr_t)(((uint64_t)(uint32_t)o[2] << 32) | (uint32_t)o[3]);
        len = (size_t)(((uint64_t)(uint32_t)o[4] << 32) | (uint32_t)o[5]);
        EV(VAL, VM_MemoryRangeValid(a, len, &vms[i]));
        break;
    case 7: EV(VAL, VM_FloatToInt(VM_IntToFloat(o[2]))); break;
    case 8:
        switch (o[2]) {
        case 0: r = VM_Create(NULL, "case", img[1].p, img[1].n, syscalls); break;
        case 1: r = VM_Call(NULL, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); break;
        case 2: VM_Free(NULL); r = 0; break;
        case 3: r = VM_ArgPtr(4, NULL) ? 0 : -1; break;
        default: r = VM_MemoryRangeValid(4, 4, NULL); break;
        }
        EV(VAL, (int)r);
        break;
    case 9:
        r = VM_Create(&vms[i], "case", img[1].p, img[1].n, NULL);
        EV(CREATED, i, (int)r, vms[i].lastError);
        break;
    case 11: /* profile report */
        failAt = o[2];
        if (capture) { drain(0); capture = 2; }
        VM_VmProfile_f(i ? &vms[i] : NULL);
        if (capture) { drain(1); capture = 1; }
        EV(REPORTED);
        failAt = 0;
        break;
    case 12: VM_Debug(o[2]); break;
    case 10: /* NULL image */
        if (vms[i].dataBase) break;
        r = VM_Create(&vms[i], "case", NULL, 100, syscalls);
        EV(CREATED, i, (int)r, r ? 0 : vms[i].lastError);
        break;
    }
}

/* ---- case file ---- */
#define MAXOPS 4096
typedef struct { int nmod, nfile; char *mod[16], *file[16]; uint8_t *fb[16]; int fn[16]; char id[64]; int nimg, nop; uint8_t *ib[MAXIMG]; int ilen[MAXIMG], icap[MAXIMG]; int (*ops)[16]; } Case;
static Case *cases;
static long ncase;

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void readCases(const char *fn)
{
    FILE *f = fopen(fn, "r");
    char *line = NULL;
    size_t cap = 0;
    Case *c = NULL;
    long alloc = 0;
    if (!f) { perror(fn); exit(99); }
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "CASE ", 5)) {
            if (ncase == alloc) cases = realloc(cases, (alloc = alloc ? 2 * alloc : 64) * sizeof *cases);
            c = &cases[ncase++];
            memset(c, 0, sizeof *c);
            sscanf(line + 5, "%63s", c->id);
            c->nimg = 1;
        } else if (!strncmp(line, "IMG ", 4)) {
            int n, pos, k = c->nimg++;
            char *q;
            sscanf(line + 4, "%d %n", &n, &pos);
            q = line + 4 + pos;
            c->ilen[k] = n;
            c->ib[k] = malloc(strlen(q) / 2 + 1);
            for (; q[0] > ' ' && q[1] > ' '; q += 2)
                c->ib[k][c->icap[k]++] = hexv(q[0]) * 16 + hexv(q[1]);
        } else if (!strncmp(line, "MOD ", 4)) {
            line[strcspn(line, "\n")] = 0;
            c->mod[++c->nmod] = strdup(line + 4);
        } else if (!strncmp(line, "FILE ", 5)) {
            char *q = strchr(line + 5, ' ');
            int k = c->nfile++;
            *q++ = 0;
            c->file[k] = strdup(line + 5);
            c->fb[k] = malloc(strlen(q) / 2 + 1);
            for (; q[0] > ' ' && q[1] > ' '; q += 2)
                c->fb[k][c->fn[k]++] = hexv(q[0]) * 16 + hexv(q[1]);
        } else if (!strncmp(line, "OP ", 3)) {
            char *q = line + 3, *e;
            int k = 0;
            c->ops = realloc(c->ops, (c->nop + 1) * sizeof *c->ops);
            memset(c->ops[c->nop], 0, sizeof *c->ops);
            while (k < 16) {
                long v = strtol(q, &e, 10);
                if (e == q) break;
                c->ops[c->nop][k++] = (int)v;
                q = e;
            }
            c->nop++;
        }
    }
    free(line);
    fclose(f);
}

static FILE *out;
static long tmo = 60000; /* CPU time per case, microseconds */
static void flushCase(int how, int arg)
{
    if (how) raw("%s[%d,%d]", sh->len ? "," : "", how, arg);
    fprintf(out, "[%.*s]\n", (int)sh->len, sh->buf);
    fflush(out);
}
static void onTimer(int s)
{
    (void)s;
    _exit(77);
}
static void onSignal(int s)
{
    _exit(100 + s);
}
/* the directory the case runs in: k<n>/cwd */
static int enterDir(Case *c)
{
    char d[64], *q;
    FILE *f;
    int k;
    snprintf(d, sizeof d, "k%d.%ld", (int)getppid(), (long)(c - cases));
    if (mkdir(d, 0777) || chdir(d) || mkdir("cwd", 0777) || chdir("cwd")) return -1;
    for (k = 0; k < c->nfile; k++) {
        for (q = c->file[k] + 1; (q = strchr(q, '/')); q++) {
            *q = 0; mkdir(c->file[k], 0777); *q = '/';
        }
        f = fopen(c->file[k], "wb");
        if (!f) return -1;
        fwrite(c->fb[k], 1, c->fn[k], f);
        fclose(f);
    }
    for (k = 1; k <= c->nmod; k++) { /* module paths may go through directories without files */
        for (q = c->mod[k] + 1; (q = strchr(q, '/')); q++) {
            *q = 0; mkdir(c->mod[k], 0777); *q = '/';
        }
        mods[k] = c->mod[k];
    }
    return 0;
}
static void runCase(Case *c)
{
    int k;
    blk *ib[MAXIMG], *b;
    struct itimerval it = { { 0, 0 }, { tmo / 1000000, tmo % 1000000 } };
    sh->len = 0; sh->nev = 0;
    depth = 0; failAt = 0;
    ntrace = 0; capture = 0;
    VM_Debug(0);
    fflush(stdout);
    if (c->nmod) {
        if (enterDir(c)) { perror("directory"); _exit(99); }
        if (memfd < 0) memfd = memfd_create("out", 0);
        dup2(memfd, 1);
        drain(-1);
        dup2(memfd, 1);
        capture = 1;
    } else
        dup2(nullfd, 1);
    memset(vms, 0, sizeof vms);
    nimg = c->nimg;
    for (k = 1; k < c->nimg; k++) {
        ib[k] = galloc(c->icap[k]);
        memcpy(ib[k]->p, c->ib[k], c->icap[k]);
        mprotect(ib[k]->pages, ib[k]->npg * PAGE, PROT_READ);
        img[k].p = ib[k]->p;
        img[k].n = c->ilen[k];
    }
    setitimer(ITIMER_VIRTUAL, &it, NULL);
    alarm(30); /* whatever blocks */
    for (k = 0; k < c->nop; k++)
        doOp(c->ops[k], 16);
    if (capture) { drain(0); capture = 0; }
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_VIRTUAL, &it, NULL);
    for (b = blocks; b; b = b->next)
        if (!canaryOK(b)) { EV(CANARY); break; }
    EV(END);
    while (blocks) { b = blocks; blocks = b->next; grelease(b); }
    for (k = 1; k < c->nimg; k++) grelease(ib[k]);
    if (c->nmod && chdir("../..")) _exit(99);
}
int main(int argc, char **argv)
{
    long k;
    if (argc < 5) return 99;
    place = argv[3][0];
    paint = atoi(argv[4]);
    if (argc > 5) tmo = atol(argv[5]);
    readCases(argv[1]);
    out = fopen(argv[2], "w");
    if (!out) { perror(argv[2]); return 99; }
    if (!freopen("/dev/null", "w", stdout)) return 99;
    nullfd = open("/dev/null", O_WRONLY);
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (k = 0; k < ncase;) {
        pid_t p;
        int st;
        sh->cur = k;
        fflush(out);
        p = fork();
        if (p < 0) { perror("fork"); return 99; }
        if (p == 0) {
            static char alt[65536];
            stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
            struct sigaction sa;
            struct rlimit rl = { 0, 0 };
            int s, sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP };
            setrlimit(RLIMIT_CORE, &rl);
            sigaltstack(&ss, NULL);
            memset(&sa, 0, sizeof sa);
            sa.sa_flags = SA_ONSTACK;
            sa.sa_handler = onSignal;
            for (s = 0; s < 6; s++) sigaction(sigs[s], &sa, NULL);
            sa.sa_handler = onTimer;
            sigaction(SIGVTALRM, &sa, NULL);
            sigaction(SIGALRM, &sa, NULL);
            for (; k < ncase; k++) {
                sh->cur = k;
                runCase(&cases[k]);
                flushCase(0, 0);
            }
            _exit(0);
        }
        if (waitpid(p, &st, 0) < 0) { perror("waitpid"); return 99; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        k = sh->cur;
        if (WIFSIGNALED(st)) flushCase(CRASH, WTERMSIG(st));
        else if (WEXITSTATUS(st) == 77) flushCase(TIMEOUT, 0);
        else if (WEXITSTATUS(st) == 78) flushCase(0, 0);
        else if (WEXITSTATUS(st) == 99) return 99;
        else flushCase(CRASH, WEXITSTATUS(st) - 100);
        k++;
    }
    fclose(out);
    return 0;
}

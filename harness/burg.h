/* Runs a generated tree matcher: included by the grammar's configuration section. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#define CAT2(a, b) a##_##b
#define CAT1(a, b) CAT2(a, b)
#define N(x) CAT1(PFX, x)
typedef struct node *NODEPTR_TYPE;
struct node {
    int op, id, v;
    struct node *kids[2];
    struct { void *state; } x;
};
#define OP_LABEL(p) ((p)->op)
#define LEFT_CHILD(p) ((p)->kids[0])
#define RIGHT_CHILD(p) ((p)->kids[1])
#define STATE_LABEL(p) ((p)->x.state)
enum { FUNC = 7 };
static jmp_buf env;
static void fatal(const char *name, const char *fmt, int n)
{
    longjmp(env, 1);
}
static void *allocate(unsigned long n, int a)
{
    void *p = malloc(n);
    memset(p, 0x55, n);
    return p;
}
#define MAXT 200000
static struct { int node, rule, cost, best; } rec[MAXT];
static int nrec;
#ifdef TRACED
static void N(trace)(NODEPTR_TYPE p, int rule, int cost, int best)
{
    if (nrec < MAXT) {
        rec[nrec].node = p->id; rec[nrec].rule = rule; rec[nrec].cost = cost; rec[nrec].best = best;
        nrec++;
    }
}
#endif

/* The main program of a matcher under test: included behind the generated code. */
#define COUNT(a) ((int)(sizeof(a) / sizeof((a)[0])))
static void text(const char *s)
{
    putchar('"');
    for (; s && *s; s++)
        if (*s == '\n') printf("\\\\n");
        else if (*s == '\t') printf("\\\\t");
        else putchar(*s);
    putchar('"');
}
static int isfatal(int k, NODEPTR_TYPE a)
{
    NODEPTR_TYPE kids[200];
    struct node bad = { 31999 };
    if (setjmp(env)) return 1;
    switch (k) {
    case 0: N(label)(NULL); break;
    case 1: N(label)(&bad); break;
    case 2: N(rule)(a->x.state, 0); break;
    case 3: N(rule)(a->x.state, COUNT(N(ntname)) - 1); break;
    case 4: N(kids)(NULL, 1, kids); break;
    case 5: N(kids)(a, 1, NULL); break;
    case 6: N(kids)(a, 0, kids); break;
    case 7: N(kids)(a, COUNT(N(string)), kids); break;
    case 8: return N(rule)(NULL, 1) != 0;
    }
    return 0;
}
int main(void)
{
    int i, j, k, t, nt = COUNT(N(ntname)) - 2, nr = COUNT(N(string)) - 1, trees;
    NODEPTR_TYPE a = NULL, kids[200];
    printf("{\"nt\":[");
    for (i = 1; i <= nt; i++) { if (i > 1) putchar(','); text(N(ntname)[i]); }
    printf("],\"rules\":[");
    for (i = 1; i <= nr; i++) {
        printf("%s{\"nts\":[", i > 1 ? "," : "");
        for (j = 0; N(nts)[i][j]; j++) printf("%s%d", j ? "," : "", N(nts)[i][j]);
        printf("],\"ins\":%d,\"tm\":", N(isinstruction)[i]);
        text(N(templates)[i]);
        printf(",\"s\":");
        text(N(string)[i]);
        printf("}");
    }
    printf("],\"counts\":[%d,%d,%d],\"trees\":[", COUNT(N(templates)) - 1, COUNT(N(isinstruction)) - 1, COUNT(N(nts)) - 1);
    if (scanf("%d", &trees) != 1) return 9;
    for (t = 0; t < trees; t++) {
        int n, l, r;
        struct node *v;
        if (scanf("%d", &n) != 1) return 9;
        v = calloc(n + 1, sizeof *v);
        for (i = 1; i <= n; i++) {
            if (scanf("%d %d %d %d", &v[i].op, &v[i].v, &l, &r) != 4) return 9;
            v[i].id = i;
            v[i].kids[0] = l ? &v[l] : NULL;
            v[i].kids[1] = r ? &v[r] : NULL;
        }
        nrec = 0;
        a = &v[n];
        if (setjmp(env)) return 8;
        N(label)(a);
        printf("%s[", t ? "," : "");
        for (i = 1; i <= n; i++) {
            struct N(state) *s = v[i].x.state;
            if (s == NULL) return 7;
            printf("%s{\"c\":[", i > 1 ? "," : "");
            for (j = 1; j <= nt; j++) printf("%s%d", j > 1 ? "," : "", s->cost[j]);
            printf("],\"r\":[");
            for (j = 1; j <= nt; j++) printf("%s%d", j > 1 ? "," : "", N(rule)(s, j));
            printf("],\"k\":[");
            for (j = 1; j <= nt; j++) {
                int e = N(rule)(s, j);
                printf("%s[", j > 1 ? "," : "");
                if (e > 0 && e <= nr) {
                    memset(kids, 0, sizeof kids);
                    N(kids)(&v[i], e, kids);
                    for (k = 0; k < 199 && kids[k]; k++) printf("%s%d", k ? "," : "", kids[k]->id);
                }
                printf("]");
            }
            printf("],\"t\":[");
            for (j = k = 0; j < nrec; j++)
                if (rec[j].node == i) printf("%s[%d,%d,%d]", k++ ? "," : "", rec[j].rule, rec[j].cost, rec[j].best);
            printf("]}");
        }
        printf("]");
    }
    printf("],\"fatal\":[");
    for (i = 0; i <= 8; i++) printf("%s%d", i ? "," : "", isfatal(i, a));
    printf("]}\n");
    return 0;
}

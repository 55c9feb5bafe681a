/* Loads .qvm images with the VM library: qload FILE...
 * prints "ok DATAMASK NONZERO b b b ..." or "refused" per image: NONZERO is
 * the number of non-zero bytes behind data and literals, b those bytes. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vm.h"
void Com_Error(vmErrorCode_t level, const char *error) { (void)level; fprintf(stderr, "%s\n", error); }
void *Com_malloc(size_t size, vm_t *vm, vmMallocType_t type) { (void)vm; (void)type; return malloc(size); }
void Com_free(void *p, vm_t *vm, vmMallocType_t type) { (void)vm; (void)type; free(p); }
static intptr_t sys(vm_t *vm, intptr_t *parms) { (void)vm; (void)parms; return 0; }
int main(int argc, char **argv)
{
    int i;
    for (i = 1; i < argc; i++) {
        static unsigned char buf[32 << 20];
        FILE *f = fopen(argv[i], "rb");
        int n = f ? (int)fread(buf, 1, sizeof buf, f) : 0, k, m, nz = 0;
        vm_t vm;
        if (f) fclose(f);
        memset(&vm, 0, sizeof vm);
        if (n < 32 || VM_Create(&vm, "x", buf, n, sys) != 0) {
            puts("refused");
            continue;
        }
        memcpy(&m, buf + 20, 4);
        memcpy(&k, buf + 24, 4);
        m += k;
        for (k = m; k <= vm.dataMask; k++) nz += vm.dataBase[k] != 0;
        printf("ok %d %d", vm.dataMask, nz);
        for (k = 0; k < m; k++) printf(" %d", vm.dataBase[k]);
        puts("");
        VM_Free(&vm);
    }
    return 0;
}

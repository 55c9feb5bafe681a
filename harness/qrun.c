/* Runs .qvm images with the VM library: qrun IMAGE N... calls the entry
 * function with the given arguments. Every call of system call 0..2 prints
 * its first argument; the result of the call comes last ("ret N"). "stop" is
 * printed when the VM reports an error. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vm.h"
static int count;
void Com_Error(vmErrorCode_t level, const char *error) { printf("stop %d %s\n", (int)level, error); fflush(stdout); exit(0); }
void *Com_malloc(size_t size, vm_t *vm, vmMallocType_t type) { (void)vm; (void)type; return malloc(size); }
void Com_free(void *p, vm_t *vm, vmMallocType_t type) { (void)vm; (void)type; free(p); }
static intptr_t sys(vm_t *vm, intptr_t *parms)
{
    (void)vm;
    if (parms[0] >= 0 && parms[0] <= 2) {
        printf("o %d\n", (int)parms[1]);
        if (++count > 20000) { puts("stop 99 too much output"); fflush(stdout); exit(0); }
        return 12345;
    }
    printf("stop 98 system call %d\n", (int)parms[0]);
    fflush(stdout);
    exit(0);
}
int main(int argc, char **argv)
{
    static unsigned char buf[32 << 20];
    FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL;
    int n = f ? (int)fread(buf, 1, sizeof buf, f) : 0, k, a[13];
    vm_t vm;
    if (f) fclose(f);
    memset(&vm, 0, sizeof vm);
    for (k = 0; k < 13; k++) a[k] = k + 2 < argc ? (int)strtol(argv[k + 2], NULL, 10) : -1;
    if (n < 32 || VM_Create(&vm, "x", buf, n, sys) != 0) {
        puts("stop 97 not loaded");
        return 0;
    }
    n = (int)VM_Call(&vm, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    printf("ret %d\n", n);
    VM_Free(&vm);
    return 0;
}

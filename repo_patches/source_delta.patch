From 633e28940affd670819c8d9eec0030b95038c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 001/110] fix: reject block copy and range lengths that wrap
 around

A negative OP_BLOCK_COPY operand (or a negative length handed to
VM_MemoryRangeValid) becomes a huge size_t; dest + n then wraps around to a
value inside the data segment, passes the mask test and reaches memcpy.
---
 src/vm/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 88d6092..24bcfe3 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -648,7 +648,8 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     }
     const unsigned dest     = vmAddr;
     const unsigned dataMask = vm->dataMask;
-    if ((dest & dataMask) != dest || ((dest + len) & dataMask) != dest + len)
+    if ((dest & dataMask) != dest || len > dataMask ||
+        ((dest + len) & dataMask) != dest + len)
     {
         Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
         return -1;
@@ -674,7 +675,7 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
 {
     unsigned int dataMask = vm->dataMask;
 
-    if ((dest & dataMask) != dest || (src & dataMask) != src ||
+    if ((dest & dataMask) != dest || (src & dataMask) != src || n > dataMask ||
         ((dest + n) & dataMask) != dest + n ||
         ((src + n) & dataMask) != src + n)
     {
-- 
2.43.0


From bf688d240a0586659a3a0d84dfa6ba589a35fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 002/110] fix: validate header offsets without integer overflow

The sums of offsets and lengths could overflow int and pass the check, so
that code or data was copied from outside of the image.  Every instruction
needs at least one byte of code, so also reject a larger instruction count.
---
 src/vm/vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 24bcfe3..bdf54b8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -472,8 +472,10 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
-            header.h->codeOffset + header.h->codeLength > length ||
-            header.h->dataOffset + header.h->dataLength + header.h->litLength >
+            header.h->instructionCount > header.h->codeLength ||
+            (int64_t)header.h->codeOffset + header.h->codeLength > length ||
+            (int64_t)header.h->dataOffset + header.h->dataLength +
+                    header.h->litLength >
                 length)
         {
             Com_Printf("Warning: %s has bad header\n", vm->name);
-- 
2.43.0


From 43e90303c1b65edc2221d3dd1e818387e7c60733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 003/110] fix: do not read or expand instructions past the end
 of the code segment

The check ran after the access, was off by one and ignored the operand, so
a truncated code segment was read beyond its end and written beyond the
end of codeBase.
---
 src/vm/vm.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index bdf54b8..6a895d8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -287,6 +287,12 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
  * @return 0 if everything is OK. -1 otherwise. */
 static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
 
+/** Helper function for VM_PrepareInterpreter: Get the size of the operand that
+ * follows an op code in the bytecode.
+ * @param[in] op Op code.
+ * @return Number of bytes. */
+static int VM_OperandSize(int op);
+
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
  * @param[in] args Arguments for function call.
@@ -694,6 +700,23 @@ static int LittleEndianToHost(const uint8_t b[4])
     return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
+static int VM_OperandSize(int op)
+{
+    switch (op)
+    {
+    case OP_ENTER:
+    case OP_LEAVE:
+    case OP_CONST:
+    case OP_LOCAL:
+    case OP_BLOCK_COPY:
+        return 4;
+    case OP_ARG:
+        return 1;
+    default:
+        return (op >= OP_EQ && op <= OP_GEF) ? 4 : 0;
+    }
+}
+
 static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
 {
     int      op;
@@ -729,15 +752,16 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         vm->instructionPointers[instruction] = int_pc;
         instruction++;
 
-        op               = (int)code[byte_pc];
-        codeBase[int_pc] = op;
-        if (byte_pc > header->codeLength)
+        if (byte_pc >= header->codeLength ||
+            byte_pc + VM_OperandSize(code[byte_pc]) >= header->codeLength)
         {
             Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                       "VM_PrepareInterpreter: pc > header->codeLength");
             return -1;
         }
 
+        op               = (int)code[byte_pc];
+        codeBase[int_pc] = op;
         byte_pc++;
         int_pc++;
 
-- 
2.43.0


From feaa8bf301ca8ee502ae36ff4ef109a8ccde2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 004/110] fix: reject a branch to the instruction after the
 last one

instructionPointers[instructionCount] is beyond the end of the table.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 6a895d8..639243b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -840,7 +840,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         case OP_LEF:
         case OP_GTF:
         case OP_GEF:
-            if (codeBase[int_pc] < 0 || codeBase[int_pc] > vm->instructionCount)
+            if (codeBase[int_pc] < 0 || codeBase[int_pc] >= vm->instructionCount)
             {
                 Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
                           "VM_PrepareInterpreter: Jump to invalid "
-- 
2.43.0


From aaa94a698793f20b93b48d709e4cba4dd8c300ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 005/110] fix: mask every access through the program stack
 pointer

OP_ENTER and OP_LEAVE operands, deep recursion or a small data segment move
programStack out of the data segment.  Calls, returns, system call arguments
and the arguments of VM_Call were read and written through it unmasked.
---
 src/vm/vm.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 639243b..e0f61b7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -932,11 +932,12 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 
     for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
     {
-        *(int*)&image[programStack + 8 + arg * 4] = args[arg];
+        *(int*)&image[(programStack + 8 + arg * 4) & dataMask] = args[arg];
     }
 
-    *(int*)&image[programStack + 4] = 0; /* return stack */
-    *(int*)&image[programStack] = -1;    /* will terminate the loop on return */
+    *(int*)&image[(programStack + 4) & dataMask] = 0; /* return stack */
+    /* will terminate the loop on return */
+    *(int*)&image[programStack & dataMask] = -1;
 
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
@@ -1102,7 +1103,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_CALL:
             /* save current program counter */
-            *(int*)&image[programStack] = programCounter;
+            *(int*)&image[programStack & dataMask] = programCounter;
 
             /* jump to the location on the stack */
             programCounter = r0;
@@ -1120,38 +1121,41 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save the stack to allow recursive VM entry */
                 vm->programStack = programStack - 4;
 #ifdef DEBUG_VM
-                int stomped = *(int*)&image[programStack + 4];
+                int stomped = *(int*)&image[(programStack + 4) & dataMask];
 #endif
-                *(int*)&image[programStack + 4] = -1 - programCounter;
+                *(int*)&image[(programStack + 4) & dataMask] =
+                    -1 - programCounter;
 
                 /* the vm has ints on the stack, we expect
                    pointers so we might have to convert it */
                 if (sizeof(intptr_t) != sizeof(int))
                 {
                     intptr_t argarr[MAX_VMSYSCALL_ARGS];
-                    int*     imagePtr = (int*)&image[programStack];
                     int      i;
                     for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)
                     {
-                        argarr[i] = *(++imagePtr);
+                        argarr[i] =
+                            *(int*)&image[(programStack + 4 + i * 4) &
+                                          dataMask];
                     }
                     r = vm->systemCall(vm, argarr);
                 }
                 else
                 {
-                    r = vm->systemCall(vm, (intptr_t*)&image[programStack + 4]);
+                    r = vm->systemCall(vm, (intptr_t*)&image[(programStack + 4) &
+                                                        dataMask]);
                 }
 
 #ifdef DEBUG_VM
                 /* this is just our stack frame pointer, only needed
                    for debugging */
-                *(int*)&image[programStack + 4] = stomped;
+                *(int*)&image[(programStack + 4) & dataMask] = stomped;
 #endif
 
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack];
+                programCounter      = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1189,7 +1193,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             /* save old stack frame for debugging traces */
-            *(int*)&image[programStack + 4] = programStack + v1;
+            *(int*)&image[(programStack + 4) & dataMask] = programStack + v1;
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
@@ -1212,7 +1216,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             programStack += v1;
 
             /* grab the saved program counter */
-            programCounter = *(int*)&image[programStack];
+            programCounter = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             if (vm_debugLevel)
@@ -1959,8 +1963,9 @@ static void VM_StackTrace(vm_t* vm, int programCounter, int programStack)
     do
     {
         Com_Printf("%s\n", VM_ValueToSymbol(vm, programCounter));
-        programStack   = *(int*)&vm->dataBase[programStack + 4];
-        programCounter = *(int*)&vm->dataBase[programStack];
+        programStack =
+            *(int*)&vm->dataBase[(programStack + 4) & vm->dataMask];
+        programCounter = *(int*)&vm->dataBase[programStack & vm->dataMask];
     } while (programCounter != -1 && ++count < 32);
 }
 
-- 
2.43.0


From b8b32c5b16fa0a8c4d21dc1d2e242e4c47bd02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 006/110] fix: restore the program stack after a runtime error

If VM_CallInterpreted returned with an error below a system call the program
stack was not restored: every failed VM_Call leaked stack space until later
calls left the data segment.
---
 src/vm/vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e0f61b7..7b5a489 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -538,6 +538,7 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     int      args[MAX_VMMAIN_ARGS];
     va_list  ap;
     int      i;
+    int      programStack;
 
     if (vm == NULL)
     {
@@ -560,9 +561,13 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     }
     va_end(ap);
 
+    programStack = vm->programStack;
     ++vm->callLevel;
     r = VM_CallInterpreted(vm, args);
     --vm->callLevel;
+    /* a runtime error leaves the interpreter without unwinding */
+    vm->programStack          = programStack;
+    vm->currentlyInterpreting = vm->callLevel > 0;
 
     return r;
 }
-- 
2.43.0


From 84fbd77ff46e76f256f6d54a6e3c24303683fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 007/110] fix: report a division by zero in the bytecode
 instead of trapping

OP_DIVI, OP_DIVU, OP_MODI and OP_MODU with a zero divisor (and INT_MIN / -1)
raised SIGFPE in the host process.
---
 src/vm/vm.c | 29 +++++++++++++++++++++++++++--
 src/vm/vm.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 7b5a489..978d0db 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1480,18 +1480,43 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             opStack[opStackOfs] = r1 - r0;
             DISPATCH();
         goto_OP_DIVI:
+            if (!r0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 / r0;
+            /* INT_MIN / -1 does not fit and would trap */
+            opStack[opStackOfs] = r0 == -1 ? (int)(0u - r1) : r1 / r0;
             DISPATCH();
         goto_OP_DIVU:
+            if (!r0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) / ((unsigned)r0);
             DISPATCH();
         goto_OP_MODI:
+            if (!r0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 % r0;
+            opStack[opStackOfs] = r0 == -1 ? 0 : r1 % r0;
             DISPATCH();
         goto_OP_MODU:
+            if (!r0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);
             DISPATCH();
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 959e2eb..3680605 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -77,6 +77,7 @@ typedef enum {
     VM_MALLOC_FAILED               = -13, /**< Not enough memory */
     VM_BAD_INSTRUCTION             = -14, /**< Unknown OP code in bytecode */
     VM_NOT_LOADED                  = -15, /**< VM not loaded */
+    VM_DIVISION_BY_ZERO            = -16, /**< Division by 0 in bytecode */
 } vmErrorCode_t;
 
 /** VM alloc type. This is just an information passed to the host malloc
-- 
2.43.0


From 11b4413d43dbeae1ba6c35c0c6c04cfdf26d31a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 008/110] fix: do not write to the bytecode image in VM_Create

The header was byte swapped in place although the image is const: this
crashes with an image in read-only memory, and on big endian hosts the same
image could not be loaded twice.
---
 src/vm/vm.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 978d0db..9a5ea6f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -276,16 +276,19 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] bytecode Pointer to bytecode.
  * @param[in] length Number of bytes in bytecode array.
- * @return Pointer to start/header of vm bytecode. */
+ * @param[out] headerCopy Header in host byte order.
+ * @return Pointer to headerCopy. */
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length);
+                                    int length, vmHeader_t* headerCopy);
 
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] header Header of .qvm bytecode.
+ * @param[in] bytecode Pointer to bytecode.
  * @return 0 if everything is OK. -1 otherwise. */
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode);
 
 /** Helper function for VM_PrepareInterpreter: Get the size of the operand that
  * follows an op code in the bytecode.
@@ -384,7 +387,8 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 
     Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
-    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length);
+    vmHeader_t        headerCopy;
+    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &headerCopy);
     if (!header)
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
@@ -415,7 +419,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     vm->compiled = 0; /* no JIT */
     if (!vm->compiled)
     {
-        if (VM_PrepareInterpreter(vm, header) != 0)
+        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
             VM_Free(vm);
             return -1;
@@ -446,11 +450,11 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 }
 
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length)
+                                    int length, vmHeader_t* headerCopy)
 {
     int dataLength;
     int i;
-    const union {
+    union {
         const vmHeader_t* h;
         const uint8_t*    v;
     } header = {.v = bytecode };
@@ -466,11 +470,12 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
 
     if (LittleLong(header.h->vmMagic) == VM_MAGIC)
     {
-        /* byte swap the header */
+        /* byte swap the header (the bytecode itself belongs to the host) */
         for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
         {
-            ((int*)header.h)[i] = LittleLong(((int*)header.h)[i]);
+            ((int*)headerCopy)[i] = LittleLong(((int*)header.h)[i]);
         }
+        header.h = headerCopy;
 
         /* validate */
         if (header.h->bssLength < 0 || header.h->dataLength < 0 ||
@@ -520,7 +525,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     Com_Memset(vm->dataBase, 0, vm->dataAlloc);
 
     /* copy the intialized data */
-    Com_Memcpy(vm->dataBase, header.v + header.h->dataOffset,
+    Com_Memcpy(vm->dataBase, bytecode + header.h->dataOffset,
                header.h->dataLength + header.h->litLength);
 
     /* byte swap the longs */
@@ -722,15 +727,17 @@ static int VM_OperandSize(int op)
     }
 }
 
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode)
 {
     int      op;
     int      byte_pc;
     int      int_pc;
-    uint8_t* code;
     int      instruction;
     int*     codeBase;
 
+    const uint8_t* code;
+
     vm->codeBase = (uint8_t*)Com_malloc(
         vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
     if (!vm->codeBase)
@@ -740,14 +747,14 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, (uint8_t*)header + header->codeOffset,
+    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset,
                vm->codeLength);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
     int_pc = byte_pc = 0;
     instruction      = 0;
-    code             = (uint8_t*)header + header->codeOffset;
+    code             = bytecode + header->codeOffset;
     codeBase         = (int*)vm->codeBase;
 
     /* Copy and expand instructions to words while
-- 
2.43.0


From f0ab12f0c081897f7968da8b19ee52fe4a488a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 009/110] fix: do not execute uninitialized memory behind the
 last instruction

A program without a final OP_LEAVE or OP_JUMP, or one that overwrites its
return address, ran into the uninitialized part of codeBase or past its end.
---
 src/vm/vm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9a5ea6f..9d92c06 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -738,8 +738,11 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
 
     const uint8_t* code;
 
+    /* we're now int aligned, with zeros (OP_UNDEF) behind the last
+     * instruction: a forged return address can reach any word up to codeLength
+     * and branch from there to any word up to OPCODE_TABLE_SIZE */
     vm->codeBase = (uint8_t*)Com_malloc(
-        vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
+        (vm->codeLength + OPCODE_TABLE_SIZE) * 4, vm, VM_ALLOC_CODE_SEC);
     if (!vm->codeBase)
     {
         Com_Error(VM_MALLOC_FAILED,
@@ -747,8 +750,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset,
-               vm->codeLength);
+    Com_Memset(vm->codeBase, 0, (vm->codeLength + OPCODE_TABLE_SIZE) * 4);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
-- 
2.43.0


From 71522ec467da1caf2f7f8fc5711cde67a39f8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 010/110] fix: keep the return address of a system call out of
 the guest memory

It was read back from the data segment after the system call, unchecked: if
the host wrote to that memory on behalf of the guest, the interpreter
continued at an arbitrary address outside of the code.
---
 src/vm/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9d92c06..35ef5ee 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1125,6 +1125,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             if (programCounter < 0) /* system call */
             {
                 int r;
+                int returnAddress = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1169,7 +1170,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack & dataMask];
+                programCounter      = returnAddress;
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
-- 
2.43.0


From f04c7ee36f5b1eac65499d1c99342dc424d48586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 011/110] fix: clear the op stack before bytecode can look at
 it

OP_POP and OP_PUSH move the op stack index without a write, so bytecode
could read what earlier host functions left on the native stack.
---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 35ef5ee..d834a90 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -956,6 +956,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
        not corrupt anything */
+    Com_Memset(stack, 0, sizeof(stack));
     opStack    = PADP(stack, 16);
     *opStack   = 0x0000BEEF;
     opStackOfs = 0;
-- 
2.43.0


From 30622d1400ee4c79a5d3874a1c1702072b0e3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 012/110] fix: check the whole address in VM_MemoryRangeValid

Only the low 32 bits of the address were compared with the data segment.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index d834a90..8badab6 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -664,7 +664,7 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     {
         return -1;
     }
-    const unsigned dest     = vmAddr;
+    const size_t   dest     = (size_t)vmAddr;
     const unsigned dataMask = vm->dataMask;
     if ((dest & dataMask) != dest || len > dataMask ||
         ((dest + len) & dataMask) != dest + len)
-- 
2.43.0


From 4caa329a25ea15a314315c10149129f913865895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 013/110] fix: exit with failure for any number of assembler
 errors

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 00982df..9df4dfd 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1778,5 +1778,5 @@ int main(int argc, char** argv)
     end = I_FloatTime();
     report("%5.0f seconds elapsed\n", end - start);
 
-    return errorCount;
+    return errorCount ? 1 : 0; /* exit codes are modulo 256 */
 }
-- 
2.43.0


From 5af976a45f9fc489621a8cf6abd896a14590f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 014/110] fix: do not loop forever on a long line in q3asm

---
 q3asm/q3asm.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 9df4dfd..72c5976 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -689,14 +689,15 @@ static char* ExtractLine(char* data)
     for (; !((*p == 0) || (*p == '\n')); p++) /* nop */
         ;
 
-    if ((p - q) >= MAX_LINE_LENGTH)
+    if ((p - q) < MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH");
-        return data;
+        memcpy(lineBuffer, data, (p - data));
+        lineBuffer[(p - data)] = 0;
+    }
+    else if (*q != ';') /* comments may be of any length */
+    {
+        CodeError("MAX_LINE_LENGTH\n");
     }
-
-    memcpy(lineBuffer, data, (p - data));
-    lineBuffer[(p - data)] = 0;
     p += (*p == '\n') ? 1 : 0; /* Skip over final newline. */
     return p;
 }
-- 
2.43.0


From ed654045673899c43285964fcc1c35f6d4ab5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 015/110] fix: start both q3asm passes in the same, defined
 state

---
 q3asm/q3asm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 72c5976..4ba5cba 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1550,6 +1550,8 @@ static void Assemble(void)
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
+        currentSegment   = &segment[CODESEG];
+        currentLocals = currentArgs = currentArgOffset = 0;
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From 43d1ddba5aa64421ac5b5e056c7c512919a3c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 016/110] fix: define the stack symbols in the bss segment

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 4ba5cba..794d142 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1580,6 +1580,7 @@ static void Assemble(void)
     }
 
     // reserve the stack in bss
+    currentSegment = &segment[BSSSEG];
     DefineSymbol("_stackStart", segment[BSSSEG].imageUsed);
     segment[BSSSEG].imageUsed += stackSize;
     DefineSymbol("_stackEnd", segment[BSSSEG].imageUsed);
-- 
2.43.0


From f7ef78ada7e907b25017887a77671acdf2e74542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 017/110] fix: do not add a segment base to equates

---
 q3asm/q3asm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 794d142..f106f04 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1126,14 +1126,18 @@ ASM(FILE)
 
 ASM(EQU)
 {
-    char name[1024];
+    char       name[1024];
+    segment_t* saved = currentSegment;
     if (!strcmp(token, "equ"))
     {
         STAT("EQU");
         Parse();
         strcpy(name, token);
         Parse();
+        // not an address: must not be relocated with the current segment
+        currentSegment = &segment[CODESEG];
         DefineSymbol(name, atoiNoCap(token));
+        currentSegment = saved;
         return 1;
     }
     return 0;
-- 
2.43.0


From 3fdd76d7d8f772eeb83309083634de7b1f532977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 018/110] fix: keep the data of an object together in one
 segment

---
 q3asm/q3asm.c | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index f106f04..63ce500 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -204,6 +204,12 @@ char token[MAX_LINE_LENGTH];
 
 int instructionCount;
 
+// the data object being assembled, see HackToSegment
+symbol_t* currentLabel;        // its label, if any
+qboolean  objectHasData;       // its place is settled
+int       objectAlignment = 1; // alignment requested before its label
+int       nextAlignment   = 1;
+
 typedef struct
 {
     char* name;
@@ -841,7 +847,8 @@ segment, but switch jump tables are emitted in the lit segment and
 initialized strng variables are put in the data segment.
 
 I can change segments here, but I also need to fixup the
-label that was just defined
+label that was just defined. Once an object has some data, all
+the rest of it has to follow in the same segment.
 
 Note that the lit segment is read-write in the VM, so strings
 aren't read only as in some architectures.
@@ -849,19 +856,45 @@ aren't read only as in some architectures.
 */
 static void HackToSegment(segmentName_t seg)
 {
+    qboolean settled = objectHasData;
+
+    objectHasData = qtrue;
     if (currentSegment == &segment[seg])
     {
         return;
     }
+    if (settled && (currentSegment == &segment[DATASEG] ||
+                    currentSegment == &segment[LITSEG]))
+    {
+        return;
+    }
 
     currentSegment = &segment[seg];
-    if (passNumber == 0)
+    currentSegment->imageUsed =
+        (currentSegment->imageUsed + objectAlignment - 1) &
+        ~(objectAlignment - 1);
+    if (passNumber == 0 && currentLabel)
     {
-        lastSymbol->segment = currentSegment;
-        lastSymbol->value   = currentSegment->imageUsed;
+        currentLabel->segment = currentSegment;
+        currentLabel->value   = currentSegment->imageUsed;
     }
 }
 
+/*
+==============
+BeginObject
+
+A label or a segment directive starts a new data object.
+==============
+*/
+static void BeginObject(symbol_t* label)
+{
+    currentLabel    = label;
+    objectHasData   = qfalse;
+    objectAlignment = nextAlignment;
+    nextAlignment   = 1;
+}
+
 //#define STAT(L) report("STAT " L "\n");
 #define STAT(L)
 #define ASM(O) int TryAssemble##O()
@@ -1066,6 +1099,7 @@ ASM(CODE)
     {
         STAT("CODE");
         currentSegment = &segment[CODESEG];
+        BeginObject(NULL);
         return 1;
     }
     return 0;
@@ -1077,6 +1111,7 @@ ASM(BSS)
     {
         STAT("BSS");
         currentSegment = &segment[BSSSEG];
+        BeginObject(NULL);
         return 1;
     }
     return 0;
@@ -1088,6 +1123,7 @@ ASM(DATA)
     {
         STAT("DATA");
         currentSegment = &segment[DATASEG];
+        BeginObject(NULL);
         return 1;
     }
     return 0;
@@ -1099,6 +1135,7 @@ ASM(LIT)
     {
         STAT("LIT");
         currentSegment = &segment[LITSEG];
+        BeginObject(NULL);
         return 1;
     }
     return 0;
@@ -1152,6 +1189,7 @@ ASM(ALIGN)
         v = ParseValue();
         currentSegment->imageUsed =
             (currentSegment->imageUsed + v - 1) & ~(v - 1);
+        nextAlignment = v;
         return 1;
     }
     return 0;
@@ -1165,6 +1203,7 @@ ASM(SKIP)
         STAT("SKIP");
         v = ParseValue();
         currentSegment->imageUsed += v;
+        objectHasData = qtrue;
         return 1;
     }
     return 0;
@@ -1224,6 +1263,7 @@ ASM(LABEL)
         {
             DefineSymbol(token, currentSegment->imageUsed);
         }
+        BeginObject(passNumber == 0 ? lastSymbol : NULL);
         return 1;
     }
     return 0;
-- 
2.43.0


From a77624d69200a440d33e3eda5f2c01e3068f4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 019/110] fix: diagnose segments that q3asm cannot hold or the
 VM cannot load

---
 q3asm/q3asm.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 63ce500..74b169a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -189,6 +189,9 @@ int   currentFileLine;
 // int       stackSize = 16384;
 int stackSize = VM_PROGRAM_STACK_SIZE;
 
+// the interpreter refuses bigger bss segments (VM_MAX_BSS_LENGTH in vm.c)
+#define MAX_SEGMENT_LENGTH 10485760
+
 // we need to convert arg and ret instructions to
 // stores to the local stack frame, so we need to track the
 // characteristics of the current functions stack frame
@@ -1187,6 +1190,11 @@ ASM(ALIGN)
     {
         STAT("ALIGN");
         v = ParseValue();
+        if (v < 1 || v > MAX_SEGMENT_LENGTH || (v & (v - 1)))
+        {
+            CodeError("Bad alignment: %i\n", v);
+            return 1;
+        }
         currentSegment->imageUsed =
             (currentSegment->imageUsed + v - 1) & ~(v - 1);
         nextAlignment = v;
@@ -1202,6 +1210,11 @@ ASM(SKIP)
     {
         STAT("SKIP");
         v = ParseValue();
+        if (v < 0 || v > MAX_SEGMENT_LENGTH - currentSegment->imageUsed)
+        {
+            CodeError("Bad skip: %i\n", v);
+            return 1;
+        }
         currentSegment->imageUsed += v;
         objectHasData = qtrue;
         return 1;
@@ -1629,6 +1642,15 @@ static void Assemble(void)
     segment[BSSSEG].imageUsed += stackSize;
     DefineSymbol("_stackEnd", segment[BSSSEG].imageUsed);
 
+    // the interpreter would refuse to load it
+    if (segment[CODESEG].imageUsed + segment[DATASEG].imageUsed +
+                segment[LITSEG].imageUsed + (int)sizeof(vmHeader_t) >
+            VM_MAX_IMAGE_SIZE ||
+        segment[BSSSEG].imageUsed > MAX_SEGMENT_LENGTH)
+    {
+        CodeError("Program too big\n");
+    }
+
     // write the image
     WriteVmFile();
 
-- 
2.43.0


From d7abcccf15e1d21cad2979d945285c2a47349da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 020/110] fix: hash table index out of range in q3asm

---
 q3asm/q3asm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 74b169a..c0e627b 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -268,7 +268,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 {
     hashchain_t *hc, **hb;
 
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned)hashvalue % H->buckets);
     hb        = &(H->table[hashvalue]);
     if (*hb == 0)
     {
@@ -296,7 +296,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 
 static hashchain_t* hashtable_get(hashtable_t* H, int hashvalue)
 {
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned)hashvalue % H->buckets);
     return (H->table[hashvalue]);
 }
 
@@ -352,7 +352,7 @@ static int hashtable_symbol_exists(hashtable_t* H, int hash, char* sym)
     hashchain_t* hc;
     symbol_t*    s;
 
-    hash = (abs(hash) % H->buckets);
+    hash = ((unsigned)hash % H->buckets);
     hc   = H->table[hash];
     if (hc == 0)
     {
@@ -1786,6 +1786,10 @@ int main(int argc, char** argv)
             }
             i++;
             symtablelen = atoiNoCap(argv[i]);
+            if (symtablelen < 1)
+            {
+                Error("-b requires a positive number");
+            }
             continue;
         }
 
-- 
2.43.0


From 1849454d5795a4ae6a7e523f549d30feef5996b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 021/110] fix: overflows with many files, long names and
 unterminated strings in q3asm

---
 q3asm/cmdlib.c | 12 ++++++++++--
 q3asm/q3asm.c  | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 592f89e..a425d73 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -491,10 +491,14 @@ skipwhite:
         do
         {
             c = *data++;
-            if (c == '\"')
+            if (c == '\"' || c == 0)
             {
                 com_token[len] = 0;
-                return data;
+                return c ? data : data - 1;
+            }
+            if (len >= (int)sizeof(com_token) - 1)
+            {
+                Error("Token too long");
             }
             com_token[len] = c;
             len++;
@@ -513,6 +517,10 @@ skipwhite:
     // parse a regular word
     do
     {
+        if (len >= (int)sizeof(com_token) - 1)
+        {
+            Error("Token too long");
+        }
         com_token[len] = c;
         data++;
         len++;
diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index c0e627b..3df574a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1661,6 +1661,29 @@ static void Assemble(void)
     }
 }
 
+static void AddAsmFile(const char* filename)
+{
+    if (numAsmFiles >= MAX_ASM_FILES)
+    {
+        Error("Too many files to assemble");
+    }
+    if (strlen(filename) + sizeof(".asm") > MAX_OS_PATH)
+    {
+        Error("File name too long");
+    }
+    asmFileNames[numAsmFiles] = copystring(filename);
+    numAsmFiles++;
+}
+
+static void SetOutputFilename(const char* filename)
+{
+    if (strlen(filename) + sizeof(".qvm") > MAX_OS_PATH)
+    {
+        Error("File name too long");
+    }
+    strcpy(outputFilename, filename);
+}
+
 /*
 =============
 ParseOptionFile
@@ -1672,6 +1695,10 @@ static void ParseOptionFile(const char* filename)
     char  expanded[MAX_OS_PATH];
     char *text, *text_p;
 
+    if (strlen(filename) + sizeof(".q3asm") > MAX_OS_PATH)
+    {
+        Error("File name too long");
+    }
     strcpy(expanded, filename);
     DefaultExtension(expanded, ".q3asm");
     LoadFile(expanded, (void**)&text);
@@ -1690,13 +1717,12 @@ static void ParseOptionFile(const char* filename)
             text_p = COM_Parse(text_p);
             if (text_p)
             {
-                strcpy(outputFilename, com_token);
+                SetOutputFilename(com_token);
             }
             continue;
         }
 
-        asmFileNames[numAsmFiles] = copystring(com_token);
-        numAsmFiles++;
+        AddAsmFile(com_token);
     }
 }
 
@@ -1762,7 +1788,7 @@ int main(int argc, char** argv)
             }
             /* Timbo of Tremulous pointed out -o not working; stock ID q3asm
              * folded in the change. Yay. */
-            strcpy(outputFilename, argv[i + 1]);
+            SetOutputFilename(argv[i + 1]);
             i++;
             continue;
         }
@@ -1823,8 +1849,7 @@ int main(int argc, char** argv)
     // the rest of the command line args are asm files
     for (; i < argc; i++)
     {
-        asmFileNames[numAsmFiles] = copystring(argv[i]);
-        numAsmFiles++;
+        AddAsmFile(argv[i]);
     }
     // In some case it Segfault without this check
     if (numAsmFiles == 0)
-- 
2.43.0


From 033a495f3e83af85fe280a3354270de4ca7406a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 022/110] fix: diagnose missing and unexpected operands

---
 q3asm/q3asm.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 3df574a..b91d6ab 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1350,7 +1350,20 @@ static void AssembleLine(void)
 
             // check for expression
             Parse();
-            if (token[0] && op->opcode != OP_CVIF && op->opcode != OP_CVFI)
+            if (op->opcode == OP_CVIF || op->opcode == OP_CVFI ||
+                op->opcode == OP_SEX8)
+            {
+                token[0] = 0;
+            }
+            if ((token[0] != 0) !=
+                (opcode == OP_CONST || opcode == OP_BLOCK_COPY ||
+                 (opcode >= OP_EQ && opcode <= OP_GEF)))
+            {
+                CodeError("%s operand: %s\n",
+                          token[0] ? "Unexpected" : "Missing", op->name);
+                return;
+            }
+            if (token[0])
             {
                 expression = ParseExpression();
 
-- 
2.43.0


From 2df5ad59c0595158ec7460005759c142a9fe63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 023/110] fix: q3asm sorts the map by value when the difference
 overflows an int

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index b91d6ab..d2a2894 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -381,7 +381,7 @@ static int symlist_cmp(const void* e1, const void* e2)
     a = *(const symbol_t**)e1;
     b = *(const symbol_t**)e2;
     // crumb("Symbol comparison (1) %d  to  (2) %d\n", a->value, b->value);
-    return (a->value - b->value);
+    return (a->value > b->value) - (a->value < b->value);
 }
 
 /*
-- 
2.43.0


From 8ee62ea750920fac3901ef5b25cfc907948a0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:24 +0000
Subject: [PATCH 024/110] fix: zero extend computed unsigned char and short
 values

q3asm ignores CVU conversions, so (unsigned char)-5 kept all its bits.
---
 lcc/src/bytecode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 871056a..1d728c5 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -113,6 +113,9 @@ static void dumptree(Node p) {
 		assert(p->syms[0]);
 		dumptree(p->kids[0]);
 		print("%s %d\n", opname(p->op), p->syms[0]->u.c.v.i);
+		/* q3asm ignores CVU: a computed (not loaded) small value has to be zero extended here */
+		if (generic(p->op) == CVU && p->syms[0]->u.c.v.i < 4 && generic(p->kids[0]->op) != INDIR)
+			print("CNSTU4 %d\nBANDU4\n", p->syms[0]->u.c.v.i == 1 ? 255 : 65535);
 		return;
 	case ARG: case BCOM: case NEG: case INDIR: case JUMP: case RET:
 		assert(p->kids[0]);
-- 
2.43.0


From e18d2299051a577312b0c8664bcf9a04d2be8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:24 +0000
Subject: [PATCH 025/110] fix: do not let the initialization of a local array
 overwrite its neighbour

q3asm rounds block copies up to whole words.
---
 lcc/src/bytecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 1d728c5..0b419d5 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -221,7 +221,8 @@ static void I(local)(Symbol p) {
 	offset = roundup(offset, p->type->align);
 	p->x.name = stringf("%d", offset);
 	p->x.offset = offset;
-	offset += p->type->size;
+	/* q3asm rounds block copies up to words: an initialized array must not share its last one */
+	offset += isarray(p->type) ? roundup(p->type->size, 4) : p->type->size;
 }
 
 static void I(progbeg)(int argc, char *argv[]) {}
-- 
2.43.0


From 700fd6a70407afab1fbf99d9af3098498aded180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:43 +0000
Subject: [PATCH 026/110] fix: fold unsigned comparisons with zero and % 1 of
 constants

They were refused as initializers, case labels and array sizes.
---
 lcc/src/simp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index ea26ab6..246616c 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -411,24 +411,24 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case GE+F: cfoldcnst(F,d,>=); break;
 		case GE+I: cfoldcnst(I,i,>=); break;
 		case GE+U:
-			geu(l,r,1);	/* l >= 0 => (l,1) */
 			cfoldcnst(U,u,>=);
+			geu(l,r,1);	/* l >= 0 => (l,1) */
 			if (l->op == CNST+U && l->u.v.u == 0)	/* 0 >= r => r == 0 */
 				return eqtree(EQ, r, l);
 			break;
 		case GT+F: cfoldcnst(F,d, >); break;
 		case GT+I: cfoldcnst(I,i, >); break;
 		case GT+U:
-			geu(r,l,0);	/* 0 > r => (r,0) */
 			cfoldcnst(U,u, >);
+			geu(r,l,0);	/* 0 > r => (r,0) */
 			if (r->op == CNST+U && r->u.v.u == 0)	/* l > 0 => l != 0 */
 				return eqtree(NE, l, r);
 			break;
 		case LE+F: cfoldcnst(F,d,<=); break;
 		case LE+I: cfoldcnst(I,i,<=); break;
 		case LE+U:
-			geu(r,l,1);	/* 0 <= r => (r,1) */
 			cfoldcnst(U,u,<=);
+			geu(r,l,1);	/* 0 <= r => (r,1) */
 			if (r->op == CNST+U && r->u.v.u == 0)	/* l <= 0 => l == 0 */
 				return eqtree(EQ, l, r);
 			break;
@@ -457,13 +457,13 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case LT+F: cfoldcnst(F,d, <); break;
 		case LT+I: cfoldcnst(I,i, <); break;
 		case LT+U:
-			geu(l,r,0);	/* l < 0 => (l,0) */
 			cfoldcnst(U,u, <);
+			geu(l,r,0);	/* l < 0 => (l,0) */
 			if (l->op == CNST+U && l->u.v.u == 0)	/* 0 < r => r != 0 */
 				return eqtree(NE, r, l);
 			break;
 		case MOD+I:
-			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
+			if (l->op != CNST+I && r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
 				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
-- 
2.43.0


From fc0f3d4a27fd7c85ae78af526b9db9822fe9fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 027/110] fix: initialize static bit-fields where the code
 reads them

The bytecode is little endian; with little_endian 0 init.c laid out the bytes
of bit-field initializers in big-endian order.
---
 lcc/src/bytecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 0b419d5..3919532 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -335,7 +335,7 @@ Interface bytecodeIR = {
 	{4, 4, 0},	/* long double */		// JDC: don't ever emit 8 byte double code
 	{4, 4, 0},	/* T* */
 	{0, 4, 0},	/* struct */
-	0,		/* little_endian */
+	1,		/* little_endian */
 	0,		/* mulops_calls */
 	0,		/* wants_callb */
 	0,		/* wants_argb */
-- 
2.43.0


From a3204ab008fd134601807012e8037c59d52bacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 028/110] fix: compute the mask of a 32 bit wide bit-field
 without an undefined shift

Comparing such a field with zero compared 0 with 0.
---
 lcc/src/c.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/c.h b/lcc/src/c.h
index 43bec08..9fec711 100644
--- a/lcc/src/c.h
+++ b/lcc/src/c.h
@@ -61,7 +61,8 @@
 #define fieldright(p) ((p)->lsb - 1)
 #define fieldleft(p)  (8*(p)->type->size - \
                         fieldsize(p) - fieldright(p))
-#define fieldmask(p)  (~(~(unsigned)0<<fieldsize(p)))
+#define fieldmask(p)  (~(fieldsize(p) < 8*unsignedtype->size ? \
+                        ~(unsigned)0<<fieldsize(p) : 0u))
 typedef struct node *Node;
 
 typedef struct list *List;
-- 
2.43.0


From 4276d5e817d48620f9fc299666239486b39614d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 029/110] fix: let a function definition with a parameter of
 its own name match its declaration

---
 lcc/src/decl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 132241e..0ff8e90 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -210,7 +210,7 @@ static Symbol dclglobal(int sclass, char *id, Type ty, Coordinate *pos) {
 			sclass, ty, id);
 		sclass = AUTO;
 	}
-	p = lookup(id, identifiers);
+	p = lookup(id, globals);
 	if (p && p->scope == GLOBAL) {
 		if (p->sclass != TYPEDEF && eqtype(ty, p->type, 1))
 			ty = compose(ty, p->type);
@@ -685,7 +685,7 @@ static void funcdefn(int sclass, char *id, Type ty, Symbol params[], Coordinate
 			caller[i]->sclass = AUTO;
 			caller[i]->type = promote(p->type);
 		}
-		p = lookup(id, identifiers);
+		p = lookup(id, globals);
 		if (p && p->scope == GLOBAL && isfunc(p->type)
 		&& p->type->u.f.proto) {
 			Type *proto = p->type->u.f.proto;
-- 
2.43.0


From 07a5dbebbc215acc39100470819d2588ac0aac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 030/110] fix: promote narrow unsigned bit-fields to int

They were treated as unsigned operands, so g.a > -1 was false for g.a == 1.
---
 lcc/src/expr.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 96eec21..af35006 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -73,8 +73,16 @@ Tree expr1(int tok) {
 		test(tok, stop);
 	return p;
 }
+/* operand - the value of p as an operand: unsigned bit-fields narrower than an int promote to int */
+static Tree operand(Tree p) {
+	p = pointer(p);
+	if (p->op == FIELD && isunsigned(p->type)
+	&& fieldsize(p->u.field) < 8*inttype->size)
+		p = cast(p, inttype);
+	return p;
+}
 Tree incr(int op, Tree v, Tree e) {
-	return asgntree(ASGN, v, (*optree[op])(oper[op], v, e));
+	return asgntree(ASGN, v, (*optree[op])(oper[op], operand(v), operand(e)));
 }
 static Tree expr2(void) {
 	Tree p = expr3(4);
@@ -88,9 +96,9 @@ static Tree expr2(void) {
 		p = pointer(p);
 		t = gettok();
 		pts[0] = src;
-		l = pointer(expr(':'));
+		l = operand(expr(':'));
 		pts[1] = src;
-		r = pointer(expr2());
+		r = operand(expr2());
 		if (events.points)
 			{
 				apply(events.points, &pts[0], &l);
@@ -121,13 +129,13 @@ static Tree expr3(int k) {
 			int op = t;
 			t = gettok();
 			pt = src;
-			p = pointer(p);
+			p = operand(p);
 			if (op == ANDAND || op == OROR) {
 				r = pointer(expr3(k1));
 				if (events.points)
 					apply(events.points, &pt, &r);
 			} else
-				r = pointer(expr3(k1 + 1));
+				r = operand(expr3(k1 + 1));
 			p = (*optree[op])(oper[op], p, r); 
 		}
 	return p;
@@ -155,12 +163,12 @@ static Tree unary(void) {
 						  else if (isaddrop(p->op))
 						  	p->u.sym->addressed = 1;
  break;
-	case '+':    t = gettok(); p = unary(); p = pointer(p);
+	case '+':    t = gettok(); p = unary(); p = operand(p);
 						  if (isarith(p->type))
 						  	p = cast(p, promote(p->type));
 						  else
 						  	typeerror(ADD, p, NULL);  break;
-	case '-':    t = gettok(); p = unary(); p = pointer(p);
+	case '-':    t = gettok(); p = unary(); p = operand(p);
 						  if (isarith(p->type)) {
 						  	Type ty = promote(p->type);
 						  	p = cast(p, ty);
@@ -171,7 +179,7 @@ static Tree unary(void) {
 						  		p = simplify(NEG, ty, p, NULL);
 						  } else
 						  	typeerror(SUB, p, NULL); break;
-	case '~':    t = gettok(); p = unary(); p = pointer(p);
+	case '~':    t = gettok(); p = unary(); p = operand(p);
 						  if (isint(p->type)) {
 						  	Type ty = promote(p->type);
 						  	p = simplify(BCOM, ty, cast(p, ty), NULL);
-- 
2.43.0


From 38f4feb3260f08eb6f6fb8dfabb6bc102b7b2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 031/110] fix: test the lower bound of a jump table for
 unsigned switch values too

---
 lcc/src/stmt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 9c3bdbe..a0c3c37 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -440,8 +440,7 @@ void swcode(Swtch swp, int b[], int lb, int ub) {
 		Symbol table = genident(STATIC,
 			array(voidptype, u - l + 1, 0), GLOBAL);
 		(*IR->defsymbol)(table);
-		if (!isunsigned(swp->sym->type) || v[l] != 0)
-			cmp(LT, swp->sym, v[l], lolab);
+		cmp(LT, swp->sym, v[l], lolab);
 		cmp(GT, swp->sym, v[u], hilab);
 		e = (*optree['-'])(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[l]));
 		if (e->type->size < unsignedptr->size)
-- 
2.43.0


From 68cc6988a81fdf85361fee01ed8cd638f6b60328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 032/110] fix: read signed bit-fields as signed through const
 and long types

---
 lcc/src/dag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 420cbe7..6ff184e 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -349,7 +349,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      else
 		      	p = node(tp->op == INDIR+B ? tp->op : op, l, NULL, NULL); } break;
 	case FIELD: { Tree q = tp->kids[0];
-		      if (tp->type == inttype) {
+		      if (!isunsigned(tp->u.field->type)) {
 		      	long n = fieldleft(tp->u.field);
 		      	q = shtree(RSH,
 		      		shtree(LSH, q, cnsttree(inttype, n)),
-- 
2.43.0


From 86ba330e0f9023957b06243405f00884d9bde92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 033/110] fix: keep the operand of & 0 whole, the target of a
 compound assignment shares it

---
 lcc/src/simp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 246616c..3989a2e 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -46,7 +46,7 @@
 #define geu(L,R,V) \
 	if (R->op == CNST+U && R->u.v.u == 0) do { \
 		warning("result of unsigned comparison is constant\n"); \
-		return tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)
+		return tree(RIGHT, inttype, L, cnsttree(inttype, (long)(V))); } while(0)
 #define idempotent(OP) if (l->op == OP) return l->kids[0]
 
 int needconst;
@@ -271,14 +271,14 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			commute(r,l);
 			identity(r,l,U,u,ones(8*ty->size));
 			if (r->op == CNST+U && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0UL));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0UL));
 			break;
 		case BAND+I:
 			foldcnst(I,i,&);
 			commute(r,l);
 			identity(r,l,I,i,ones(8*ty->size));
 			if (r->op == CNST+I && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			break;
 
 		case MUL+U:
@@ -464,7 +464,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			break;
 		case MOD+I:
 			if (l->op != CNST+I && r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
-- 
2.43.0


From ff23d48252fe426a311fa9cb9e09b8521a96313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 034/110] fix: let the members of a conditional structure value
 be selected

---
 lcc/src/enode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index d59c31b..4911442 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -387,6 +387,7 @@ Tree condtree(Tree e, Tree l, Tree r) {
 /* addrof - address of p */
 Tree addrof(Tree p) {
 	Tree q = p;
+	int used = 0;
 
 	for (;;)
 		switch (generic(q->op)) {
@@ -396,10 +397,13 @@ Tree addrof(Tree p) {
 			continue;
 		case ASGN:
 			q = q->kids[1];
+			used = 1;
 			continue;
 		case COND: {
 			Symbol t1 = q->u.sym;
-			q->u.sym = 0;
+			if (!used)
+				q->u.sym = 0;
+			addlocal(t1);
 			q = idtree(t1);
 			/* fall through */
 			}
-- 
2.43.0


From bce8c655b1160320119ed72d181fd282a045b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 035/110] fix: round floating constants to single precision
 like the values at run time

---
 lcc/src/enode.c | 5 ++++-
 lcc/src/expr.c  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 4911442..1c5bdf6 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -183,7 +183,10 @@ Tree cnsttree(Type ty, ...) {
 	switch (ty->op) {
 	case INT:     p->u.v.i = va_arg(ap, long); break;
 	case UNSIGNED:p->u.v.u = va_arg(ap, unsigned long)&ones(8*ty->size); break;
-	case FLOAT:   p->u.v.d = va_arg(ap, double); break;
+	case FLOAT:   p->u.v.d = va_arg(ap, double);
+		      if (ty->size == sizeof (float))
+		      	p->u.v.d = (float)p->u.v.d;
+		      break;
 	case POINTER: p->u.v.p = va_arg(ap, void *); break;
 	default: assert(0);
 	}
diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index af35006..8017078 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -352,6 +352,8 @@ static Tree primary(void) {
 	case ICON:
 	case FCON: p = tree(mkop(CNST,tsym->type), tsym->type, NULL, NULL);
 		   p->u.v = tsym->u.c.v;
+		   if (isfloat(p->type) && p->type->size == sizeof (float))
+		   	p->u.v.d = (float)p->u.v.d;
  break;
 	case SCON: if (ischar(tsym->type->type))
 		   	tsym->u.c.v.p = stringn(tsym->u.c.v.p, tsym->type->size);
-- 
2.43.0


From 1468e8073b18a526ef4b50119b69c69ad32790a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 036/110] fix: keep the sign of floating constants that are
 zero

---
 lcc/src/sym.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/sym.c b/lcc/src/sym.c
index 2a1cfeb..26ee164 100644
--- a/lcc/src/sym.c
+++ b/lcc/src/sym.c
@@ -171,7 +171,7 @@ Symbol constant(Type ty, Value v) {
 			switch (ty->op) {
 			case INT:      if (equalp(i)) return &p->sym; break;
 			case UNSIGNED: if (equalp(u)) return &p->sym; break;
-			case FLOAT:    if (equalp(d)) return &p->sym; break;
+			case FLOAT:    if (memcmp(&v.d, &p->sym.u.c.v.d, sizeof v.d) == 0) return &p->sym; break;
 			case FUNCTION: if (equalp(g)) return &p->sym; break;
 			case ARRAY:
 			case POINTER:  if (equalp(p)) return &p->sym; break;
-- 
2.43.0


From dac96cfcef167fbbc24b4f9ddfc41f52ec830285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 037/110] fix: accept a trailing comma in nested initialisers
 of unions and scalars

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 2f015b4..665d4a6 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -110,7 +110,7 @@ static int initchar(int len, Type ty) {
 
 /* initend - finish off an initialization at level lev; accepts trailing comma */
 static void initend(int lev, char follow[]) {
-	if (lev == 0 && t == ',')
+	if (t == ',')
 		t = gettok();
 	test('}', follow);
 }
-- 
2.43.0


From 4034fcd30aef28b00b02c2535b16534942517679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 038/110] fix: initialise bit-fields that end an initialiser or
 share their offset with other union members

---
 lcc/src/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 665d4a6..5ad40c0 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -140,7 +140,7 @@ static int initfields(Field p, Field q) {
 		if (p->link == q)
 			break;
 		p = p->link;
-	} while (t == ',' && (t = gettok()) != 0);
+	} while (t == ',' && (t = gettok()) != '}');
 	n = (n + 7)/8;
 	for (i = 0; i < n; i++) {
 		Value v;
@@ -168,7 +168,7 @@ static int initstruct(int len, Type ty, int lev) {
 		}
 		if (p->lsb) {
 			Field q = p;
-			while (q->link && q->link->offset == p->offset)
+			while (!isunion(ty) && q->link && q->link->offset == p->offset)
 				q = q->link;
 			n += initfields(p, q->link);
 			p = q;
-- 
2.43.0


From c6867f9ae52c8afcae00cf3492cf5f6a67e05664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 039/110] fix: let a cast of a narrow unsigned bit-field to
 unsigned keep its type

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 8017078..a7ef002 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -234,7 +234,7 @@ static Tree unary(void) {
 				ty1 = ty2;
 				ty = ty->type;
 			}
-			p = pointer(unary());
+			p = operand(unary());
 			pty = p->type;
 			if (isenum(pty))
 				pty = pty->type;
-- 
2.43.0


From c4f727e548a5f8fb976edc3b54388f23a6e8a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 040/110] fix: keep the sign of enumeration constants in
 constant expressions

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index a7ef002..4fc48ec 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -401,7 +401,7 @@ static Tree primary(void) {
 		   if (xref)
 		   	use(tsym, src);
 		   if (tsym->sclass == ENUM)
-		   	p = consttree(tsym->u.value, inttype);
+		   	p = cnsttree(inttype, (long)tsym->u.value);
 		   else {
 		   	if (tsym->sclass == TYPEDEF)
 		   		error("illegal use of type name `%s'\n", tsym->name);
-- 
2.43.0


From c7e664ebea462c392587e9d835218e9c007523a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 041/110] fix: elide the conversion from float to unsigned in a
 statement whose operand is a conditional

---
 lcc/src/tree.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lcc/src/tree.c b/lcc/src/tree.c
index e8e9e1f..c465a62 100644
--- a/lcc/src/tree.c
+++ b/lcc/src/tree.c
@@ -38,8 +38,15 @@ static Tree root1(Tree p) {
 		warn++;
 	switch (generic(p->op)) {
 	case COND: {
-		Tree q = p->kids[1];
+		Tree q = p->kids[1], x = NULL;
 		assert(q && q->op == RIGHT);
+		if (p->u.sym && q->kids[1] && generic(q->kids[1]->op) == ASGN)
+			for (x = q->kids[1]->kids[1]; generic(x->op) == CVI || generic(x->op) == CVU; )
+				x = x->kids[0];
+		if (x && generic(x->op) == CVF && generic(p->kids[0]->op) == GE
+		&&  x->kids[0] == p->kids[0]->kids[0])
+			/* de-construct float to unsigned conversion */
+			return root1(x->kids[0]);
 		if (p->u.sym && q->kids[0] && generic(q->kids[0]->op) == ASGN)
 			q->kids[0] = root1(q->kids[0]->kids[1]);
 		else
-- 
2.43.0


From f2fce48420cd5b11c3f2f1022f91863d217f0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 042/110] fix: #if operators of equal priority are left
 associative and ?: may be nested

---
 lcc/cpp/eval.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 95a9e11..8651f40 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -90,7 +90,7 @@ struct pri {
 	{ 16, 0, UNARY },	/* UMINUS */
 };
 
-int	evalop(struct pri);
+int	evalop(int);
 struct	value tokval(Token *);
 struct value vals[NSTAK], *vp;
 enum toktype ops[NSTAK], *op;
@@ -168,7 +168,7 @@ eval(Tokenrow *trp, int kw)
 		case COLON: case COMMA:
 			if (rand==0)
 				goto syntax;
-			if (evalop(priority[tp->type])!=0)
+			if (evalop(tp->type)!=0)
 				return 0;
 			*op++ = tp->type;
 			rand = 0;
@@ -183,7 +183,7 @@ eval(Tokenrow *trp, int kw)
 		case RP:
 			if (!rand)
 				goto syntax;
-			if (evalop(priority[RP])!=0)
+			if (evalop(RP)!=0)
 				return 0;
 			if (op<=ops || op[-1]!=LP) {
 				goto syntax;
@@ -198,7 +198,7 @@ eval(Tokenrow *trp, int kw)
 	}
 	if (rand==0)
 		goto syntax;
-	if (evalop(priority[END])!=0)
+	if (evalop(END)!=0)
 		return 0;
 	if (op!=&ops[1] || vp!=&vals[1]) {
 		error(ERROR, "Botch in #if/#elsif");
@@ -212,8 +212,22 @@ syntax:
 	return 0;
 }
 
+/*
+ * Should the operator on top of the stack be evaluated before `in' is pushed?
+ * Binary operators are left associative, ?: is right associative.
+ */
+static int
+binds(int top, int in)
+{
+	if (priority[in].pri != priority[top].pri)
+		return priority[in].pri < priority[top].pri;
+	if (priority[in].ctype==SPCL)
+		return top==COLON && in==COLON;
+	return priority[in].arity==2;
+}
+
 int
-evalop(struct pri pri)
+evalop(int in)
 {
 	struct value v1, v2;
 	long rv1, rv2;
@@ -225,7 +239,7 @@ evalop(struct pri pri)
 
 	rv2=0;
 	rtype=0;
-	while (pri.pri < priority[op[-1]].pri) {
+	while (binds(op[-1], in)) {
 		oper = *--op;
 		if (priority[oper].arity==2) {
 			v2 = *--vp;
-- 
2.43.0


From f9374e80cd4fbebc5ab3478345311f9d2a8847c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 043/110] fix: #if ?: with an undefined condition is undefined,
 and unsigned if an operand is

---
 lcc/cpp/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 8651f40..0bf1af4 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -379,9 +379,11 @@ evalop(int in)
 				error(ERROR, "Bad ?: in #if/endif");
 			else {
 				op--;
+				rtype = v1.type==UNS || v2.type==UNS? UNS: SGN;
 				if ((--vp)->val==0)
 					v1 = v2;
-				rtype = v1.type;
+				if (vp->type==UND || v1.type==UND)
+					rtype = UND;
 				rv1 = v1.val;
 			}
 			break;
-- 
2.43.0


From df29b63350276dc06784b57571cc6a0c8e00658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 044/110] fix: division of the most negative #if value by -1
 does not trap

---
 lcc/cpp/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 0bf1af4..4e64303 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -361,6 +361,8 @@ evalop(int in)
 			}
 			if (rtype==UNS)
 				rv1 /= (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = -(unsigned long)rv1;
 			else
 				rv1 /= rv2;
 			break;
@@ -371,6 +373,8 @@ evalop(int in)
 			}
 			if (rtype==UNS)
 				rv1 %= (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = 0;
 			else
 				rv1 %= rv2;
 			break;
-- 
2.43.0


From a2624d26a507adb41528223324417059326b1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 045/110] fix: #if expressions of any depth do not overrun the
 evaluation stacks

---
 lcc/cpp/eval.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 4e64303..c89a2d2 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -2,7 +2,6 @@
 #include <string.h>
 #include "cpp.h"
 
-#define	NSTAK	32
 #define	SGN	0
 #define	UNS	1
 #define	UND	2
@@ -92,8 +91,9 @@ struct pri {
 
 int	evalop(int);
 struct	value tokval(Token *);
-struct value vals[NSTAK], *vp;
-enum toktype ops[NSTAK], *op;
+static struct value *vals, *vp;
+static enum toktype *ops, *op;
+static int nstak;
 
 /*
  * Evaluate an #if #elif #ifdef #ifndef line.  trp->tp points to the keyword.
@@ -118,6 +118,13 @@ eval(Tokenrow *trp, int kw)
 	kwdefined->val = KDEFINED;	/* activate special meaning of defined */
 	expandrow(trp, "<if>");
 	kwdefined->val = NAME;
+	if (rowlen(trp)+2 > nstak) {	/* at most one value and operator per token */
+		nstak = rowlen(trp)+2;
+		vals = (struct value *)realloc(vals, nstak*sizeof(struct value));
+		ops = (enum toktype *)realloc(ops, nstak*sizeof(enum toktype));
+		if (vals==NULL || ops==NULL)
+			error(FATAL, "Out of memory from realloc");
+	}
 	vp = vals;
 	op = ops;
 	*op++ = END;
-- 
2.43.0


From 85e449e4ed849605629f8c9963e4406f8db6be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 046/110] fix: unbalanced parentheses and commas in #if are
 errors

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index c89a2d2..d9ea54e 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -258,7 +258,7 @@ evalop(int in)
 		switch (priority[oper].ctype) {
 		case 0:
 		default:
-			error(WARNING, "Syntax error in #if/#endif");
+			error(ERROR, "Syntax error in #if/#endif");
 			return 1;
 		case ARITH:
 		case RELAT:
-- 
2.43.0


From 0d6fc5c1ec3396f5b11fe9bfffe17399d4c64576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 047/110] fix: numbers with bad digits in #if are errors

---
 lcc/cpp/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index d9ea54e..e861aa5 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -448,11 +448,13 @@ tokval(Token *tp)
 			}
 			p++;
 		}
+		if (base==16 && digit(*p)<0)
+			error(ERROR, "Bad number %t in #if/#elsif", tp);
 		for (;; p++) {
 			if ((i = digit(*p)) < 0)
 				break;
 			if (i>=base)
-				error(WARNING,
+				error(ERROR,
 				  "Bad digit in number %t", tp);
 			n *= base;
 			n += i;
-- 
2.43.0


From 60aff0c238735f822d00595a3dd431445d8cefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 048/110] fix: '\a' in #if

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index e861aa5..77fc93b 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -508,7 +508,7 @@ tokval(Token *tp)
 				}
 			} else {
 				static char cvcon[]
-				  = "b\bf\fn\nr\rt\tv\v''\"\"??\\\\";
+				  = "a\ab\bf\fn\nr\rt\tv\v''\"\"??\\\\";
 				for (i=0; i<sizeof(cvcon); i+=2) {
 					if (*p == cvcon[i]) {
 						n = cvcon[i+1];
-- 
2.43.0


From 17982c5d398911cce8f05cb31b5882d3db3d4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 049/110] fix: other directives in skipped groups have no
 effect

---
 lcc/cpp/cpp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 5c0cfd7..0f06c47 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -94,13 +94,17 @@ control(Tokenrow *trp)
 
 	tp = trp->tp;
 	if (tp->type!=NAME) {
+		if (skipping)
+			return;
 		if (tp->type==NUMBER)
 			goto kline;
 		if (tp->type != NL)
 			error(ERROR, "Unidentifiable control line");
 		return;			/* else empty line */
 	}
-	if ((np = lookup(tp, 0))==NULL || ((np->flag&ISKW)==0 && !skipping)) {
+	if ((np = lookup(tp, 0))==NULL || (np->flag&ISKW)==0) {
+		if (skipping)
+			return;
 		error(WARNING, "Unknown preprocessor control %t", tp);
 		return;
 	}
-- 
2.43.0


From 65c11291bfba203471ad7f042bbae9036eafeffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 050/110] fix: #elif after a group that was taken is not
 evaluated, and belongs to its own file

---
 lcc/cpp/cpp.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 0f06c47..fc12990 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -167,19 +167,17 @@ control(Tokenrow *trp)
 		break;
 
 	case KELIF:
-		if (ifdepth==0) {
+		if (ifdepth==0 || cursource->ifdepth==0) {
 			error(ERROR, "#elif with no #if");
 			return;
 		}
 		if (ifsatisfied[ifdepth]==2)
 			error(ERROR, "#elif after #else");
-		if (eval(trp, np->val)) {
-			if (ifsatisfied[ifdepth])
-				skipping = ifdepth;
-			else {
-				skipping = 0;
-				ifsatisfied[ifdepth] = 1;
-			}
+		if (ifsatisfied[ifdepth])
+			skipping = ifdepth;	/* the condition does not matter */
+		else if (eval(trp, np->val)) {
+			skipping = 0;
+			ifsatisfied[ifdepth] = 1;
 		} else
 			skipping = ifdepth;
 		break;
-- 
2.43.0


From d98a9c6c098dab6f55fdc915b136db7edd9d7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 051/110] fix: substituting macro arguments does not read past
 the replacement list

---
 lcc/cpp/macro.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2972083..dbd0e68 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -326,7 +326,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		if (rtr->tp->type==SHARP) {	/* string operator */
 			tp = rtr->tp;
 			rtr->tp += 1;
-			if ((argno = lookuparg(np, rtr->tp))<0) {
+			if (rtr->tp>=rtr->lp || (argno = lookuparg(np, rtr->tp))<0) {
 				error(ERROR, "# not followed by macro parameter");
 				continue;
 			}
@@ -337,7 +337,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		}
 		if (rtr->tp->type==NAME
 		 && (argno = lookuparg(np, rtr->tp)) >= 0) {
-			if ((rtr->tp+1)->type==DSHARP
+			if ((rtr->tp+1<rtr->lp && (rtr->tp+1)->type==DSHARP)
 			 || (rtr->tp!=rtr->bp && (rtr->tp-1)->type==DSHARP))
 				insertrow(rtr, 1, atr[argno]);
 			else {
-- 
2.43.0


From 86f87c7594534b88a0b935075a38c6386d8dd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 052/110] fix: pasted tokens of any length

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index dbd0e68..238e2f8 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -366,7 +366,7 @@ doconcat(Tokenrow *trp)
 		if (trp->tp->type==DSHARP1)
 			trp->tp->type = DSHARP;
 		else if (trp->tp->type==DSHARP) {
-			char tt[128];
+			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
 			if (ltp<trp->bp || ntp>=trp->lp) {
@@ -374,10 +374,12 @@ doconcat(Tokenrow *trp)
 				continue;
 			}
 			len = ltp->len + ntp->len;
+			tt = (char*)domalloc(len+1);
 			strncpy((char*)tt, (char*)ltp->t, ltp->len);
 			strncpy((char*)tt+ltp->len, (char*)ntp->t, ntp->len);
 			tt[len] = '\0';
 			setsource("<##>", -1, tt);
+			dofree(tt);
 			maketokenrow(3, &ntr);
 			gettokens(&ntr, 1);
 			unsetsource();
-- 
2.43.0


From c5f875e5a866a13f8030450a02c530a720ced702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 053/110] fix: ## from a macro argument or pasted from # and #
 is never an operator

---
 lcc/cpp/macro.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 238e2f8..c90ce64 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -363,9 +363,7 @@ doconcat(Tokenrow *trp)
 	int len;
 
 	for (trp->tp=trp->bp; trp->tp<trp->lp; trp->tp++) {
-		if (trp->tp->type==DSHARP1)
-			trp->tp->type = DSHARP;
-		else if (trp->tp->type==DSHARP) {
+		if (trp->tp->type==DSHARP) {
 			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
@@ -386,6 +384,8 @@ doconcat(Tokenrow *trp)
 			if (ntr.lp-ntr.bp!=2 || ntr.bp->type==UNCLASS)
 				error(WARNING, "Bad token %r produced by ##", &ntr);
 			ntr.lp = ntr.bp+1;
+			if (ntr.bp->type==DSHARP)
+				ntr.bp->type = DSHARP1;	/* not an operator */
 			trp->tp = ltp;
 			makespace(&ntr);
 			insertrow(trp, (ntp-ltp)+1, &ntr);
-- 
2.43.0


From 406309d293a8a6ca208a7aefe3ee839b9a9b6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 054/110] fix: no limit to the number of macros hidden from
 expansion

---
 lcc/cpp/hideset.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lcc/cpp/hideset.c b/lcc/cpp/hideset.c
index bd2540d..7302830 100644
--- a/lcc/cpp/hideset.c
+++ b/lcc/cpp/hideset.c
@@ -9,7 +9,6 @@
  * Hideset 0 is empty.
  */
 
-#define	HSSIZ	32
 typedef	Nlist	**Hideset;
 Hideset	*hidesets;
 int	nhidesets = 0;
@@ -40,26 +39,29 @@ int
 newhideset(int hs, Nlist *np)
 {
 	int i, len;
-	Nlist *nhs[HSSIZ+3];
+	Hideset nhs;
 	Hideset hs1, hs2;
 
-	len = inserths(nhs, hidesets[hs], np);
+	for (len=0; hidesets[hs][len]; len++)
+		;
+	nhs = (Hideset)domalloc((len+2)*sizeof(*nhs));
+	inserths(nhs, hidesets[hs], np);
 	for (i=0; i<nhidesets; i++) {
 		for (hs1=nhs, hs2=hidesets[i]; *hs1==*hs2; hs1++, hs2++)
-			if (*hs1 == NULL)
+			if (*hs1 == NULL) {
+				dofree(nhs);
 				return i;
+			}
 	}
-	if (len>=HSSIZ)
-		return hs;
+	if (nhidesets > 0xFFFF)
+		error(FATAL, "Too many nested macros");
 	if (nhidesets >= maxhidesets) {
 		maxhidesets = 3*maxhidesets/2+1;
 		hidesets = (Hideset *)realloc(hidesets, (sizeof (Hideset *))*maxhidesets);
 		if (hidesets == NULL)
 			error(FATAL, "Out of memory from realloc");
 	}
-	hs1 = (Hideset)domalloc(len*sizeof(Hideset));
-	memmove(hs1, nhs, len*sizeof(Hideset));
-	hidesets[nhidesets] = hs1;
+	hidesets[nhidesets] = nhs;
 	return nhidesets++;
 }
 
-- 
2.43.0


From be9a5d7d726276de0e836a266c9c0eaf1f3ddbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 055/110] fix: form feed is white space

---
 lcc/cpp/cpplex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 8030354..da9ae75 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -54,6 +54,7 @@ struct	fsm {
 	/* start state */
 	{START,	{ C_XX },	ACT(UNCLASS,S_SELF)},
 	{START,	{ ' ', '\t', '\v' },	WS1},
+	{START,	{ '\f' },	WS1},
 	{START,	{ C_NUM },	NUM1},
 	{START,	{ '.' },	NUM3},
 	{START,	{ C_ALPH },	ID1},
@@ -168,6 +169,7 @@ struct	fsm {
 	/* saw white space, eat it up */
 	{WS1,	{ C_XX },	S_WS},
 	{WS1,	{ ' ', '\t', '\v' },	WS1},
+	{WS1,	{ '\f' },	WS1},
 
 	/* saw -, check --, -=, -> */
 	{MINUS1,	{ C_XX },	ACT(MINUS, S_SELFB)},
-- 
2.43.0


From 6dec5b8a2a6f77ab0ac2d6542344c9e4878bad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 056/110] fix: a file without a newline at its end ends with a
 complete line

---
 lcc/cpp/cpplex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index da9ae75..d6267c7 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -408,8 +408,10 @@ gettokens(Tokenrow *trp, int reset)
 				tp->type = END;
 				tp->len = 0;
 				s->inp = ip;
-				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1)
+				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1) {
 					error(WARNING,"No newline at end of file");
+					*tp = nltoken;	/* supply it; END comes next */
+				}
 				trp->lp = tp+1;
 				return nmac;
 
-- 
2.43.0


From 3879128e84c973b94f218383182d088df6afa8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 057/110] fix: long comments lose no characters and do not
 overflow the input buffer

---
 lcc/cpp/cpplex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index d6267c7..5f6ce60 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -436,10 +436,10 @@ gettokens(Tokenrow *trp, int reset)
 				state = COM2;
 				ip += runelen;
 				runelen = 1;
-				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
+				if (ip >= s->inb+(3*INS/4)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
-					ip = tp->t+1;
+					ip = tp->t;
 				}
 				continue;
 
@@ -496,7 +496,7 @@ trigraph(Source *s)
 	}
 	if (c) {
 		*s->inp = c;
-		memmove(s->inp+1, s->inp+3, s->inl-s->inp+2);
+		memmove(s->inp+1, s->inp+3, s->inl-s->inp+1);
 		s->inl -= 2;
 	}
 	return c;
@@ -508,7 +508,7 @@ foldline(Source *s)
 	while (s->inp+1 >= s->inl && fillbuf(s)!=EOF)
 		;
 	if (s->inp[1] == '\n') {
-		memmove(s->inp, s->inp+2, s->inl-s->inp+3);
+		memmove(s->inp, s->inp+2, s->inl-s->inp+2);
 		s->inl -= 2;
 		return 1;
 	}
-- 
2.43.0


From a24957d595bebc28adacc1a16348a02e0a8b2442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 058/110] fix: any number of __FILE__ and __LINE__ on a line

---
 lcc/cpp/macro.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index c90ce64..ff90854 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -471,11 +471,12 @@ builtin(Tokenrow *trp, int biname)
 		s = cursource;
 	/* most are strings */
 	tp->type = STRING;
+	op = (char*)domalloc(2*strlen(s->filename)+32);
 	if (tp->wslen) {
-		*outbufp++ = ' ';
+		*op++ = ' ';
 		tp->wslen = 1;
 	}
-	op = outbufp;
+	tp->t = (uchar*)op;
 	*op++ = '"';
 	switch (biname) {
 
@@ -510,7 +511,5 @@ builtin(Tokenrow *trp, int biname)
 	}
 	if (tp->type==STRING)
 		*op++ = '"';
-	tp->t = (uchar*)outbufp;
-	tp->len = op - outbufp;
-	outbufp = op;
+	tp->len = op - (char*)tp->t;
 }
-- 
2.43.0


From 571533aaff12800eb6c4e9c5214297ece6c71733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 059/110] fix: absolute and long include directories

---
 lcc/cpp/include.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 5ecd8b3..4821c29 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -12,8 +12,12 @@ void appendDirToIncludeList( char *dir )
 	int i;
 	char *fqdir;
 
-	fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
-	strcat( fqdir, "/" );
+	fqdir = (char *)domalloc( strlen( includelist[NINCLUDE-1].file ) + strlen( dir ) + 2 );
+	*fqdir = '\0';
+	if ( *dir != '/' ) {
+		strcat( fqdir, includelist[NINCLUDE-1].file );
+		strcat( fqdir, "/" );
+	}
 	strcat( fqdir, dir );
 
 	//avoid adding it more than once
-- 
2.43.0


From c8aa35a921ef7ac000ef8e17fe077e1f5bcde64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 060/110] fix: #include <name without > does not read past the
 line

---
 lcc/cpp/include.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 4821c29..81a0df1 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -63,8 +63,12 @@ doinclude(Tokenrow *trp)
 	} else if (trp->tp->type==LT) {
 		len = 0;
 		trp->tp++;
-		while (trp->tp->type!=GT) {
-			if (trp->tp>trp->lp || len+trp->tp->len+2 >= sizeof(fname))
+		for (;;) {
+			if (trp->tp>=trp->lp)
+				goto syntax;
+			if (trp->tp->type==GT)
+				break;
+			if (len+trp->tp->len+2 >= sizeof(fname))
 				goto syntax;
 			strncpy(fname+len, (char*)trp->tp->t, trp->tp->len);
 			len += trp->tp->len;
-- 
2.43.0


From 120a23c7572fc0fc6aeafcabc8cf7b019f16fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 061/110] fix: white space in the source survives macro
 replacement for #

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/macro.c  |  2 +-
 lcc/cpp/tokens.c | 25 +++++++++++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index ddd7502..5524fb1 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -130,6 +130,7 @@ long	eval(Tokenrow *, int);
 void	genline(void);
 void	setempty(Tokenrow *);
 void	makespace(Tokenrow *);
+void	setspace(Tokenrow *, int);
 char	*outnum(char *, int);
 int	digit(int);
 uchar	*newstring(uchar *, int, int);
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index ff90854..dcca2d9 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -264,7 +264,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			gettokens(trp, 0);
 		if (needspace) {
 			needspace = 0;
-			makespace(trp);
+			setspace(trp, 1);
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index 964453c..9caa77d 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -131,16 +131,41 @@ void
 insertrow(Tokenrow *dtr, int ntok, Tokenrow *str)
 {
 	int nrtok = rowlen(str);
+	int space = dtr->tp->wslen && (dtr->tp->flag&XPWS)==0;
 
 	dtr->tp += ntok;
 	adjustrow(dtr, nrtok-ntok);
 	dtr->tp -= ntok;
 	movetokenrow(dtr, str);
 	makespace(dtr);
+	if (nrtok>0)
+		setspace(dtr, space);
 	dtr->tp += nrtok;
 	makespace(dtr);
 }
 
+/*
+ * set whether there is white space in the source before trp->tp
+ */
+void
+setspace(Tokenrow *trp, int space)
+{
+	uchar *tt;
+	Token *tp = trp->tp;
+
+	if (!space) {
+		tp->flag |= XPWS;
+		return;
+	}
+	if (tp->wslen==0) {
+		tt = newstring(tp->t, tp->len, 1);
+		*tt++ = ' ';
+		tp->t = tt;
+		tp->wslen = 1;
+	}
+	tp->flag &= ~XPWS;
+}
+
 /*
  * make sure there is WS before trp->tp, if tokens might merge in the output
  */
-- 
2.43.0


From c63ffcf26451d6b4882956df1eac8422e6ec62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 062/110] fix: a control line after the name of a function-like
 macro is a control line

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/cpplex.c | 20 ++++++++++++++++++++
 lcc/cpp/macro.c  |  4 ++++
 3 files changed, 25 insertions(+)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index 5524fb1..9d23afb 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -103,6 +103,7 @@ void	flushout(void);
 int	fillbuf(Source *);
 int	trigraph(Source *);
 int	foldline(Source *);
+int	nextcontrol(void);
 Nlist	*lookup(Token *, int);
 void	control(Tokenrow *);
 void	dodefine(Tokenrow *);
diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 5f6ce60..416f9de 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -536,6 +536,26 @@ fillbuf(Source *s)
 	return 0;
 }
 
+/*
+ * Does the next line of the current source look like a control line?
+ */
+int
+nextcontrol(void)
+{
+	Source *s = cursource;
+	uchar *ip = s->inp;
+
+	for (;;) {
+		if (ip >= s->inl) {
+			if (fillbuf(s)==EOF)
+				return 0;
+		} else if (*ip==' ' || *ip=='\t' || *ip=='\v' || *ip=='\f')
+			ip++;
+		else
+			return *ip=='#' || (*ip=='?' && ip+2<s->inl && ip[1]=='?' && ip[2]=='=');
+	}
+}
+
 /*
  * Push down to new source of characters.
  * If fd>0 and str==NULL, then from a file `name';
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index dcca2d9..00dbd1f 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -241,6 +241,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		trp->tp++;
 		ntok++;
 		if (trp->tp >= trp->lp) {
+			if (nextcontrol()) {	/* it ends the search for ( */
+				trp->tp -= ntok;
+				return ntok;
+			}
 			gettokens(trp, 0);
 			if ((trp->lp-1)->type==END) {
 				trp->lp -= 1;
-- 
2.43.0


From 4405cdf15454e76c48e9a40d493e546a0cbcc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 063/110] fix: the token after the name of a function-like
 macro is expanded when it is no call

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 00dbd1f..77d93a1 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -254,8 +254,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		}
 		if (trp->tp->type==LP)
 			break;
-		if (trp->tp->type!=NL)
+		if (trp->tp->type!=NL) {
+			trp->tp -= ntok;
 			return ntok;
+		}
 	}
 	*narg = 0;
 	ntok++;
-- 
2.43.0


From d5fd0309f1d978d7f5fa01b676da4b061a347e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 064/110] fix: a macro defined by -D without a value may be
 used in #if

---
 lcc/cpp/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 77d93a1..97c8161 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -92,7 +92,8 @@ void
 doadefine(Tokenrow *trp, int type)
 {
 	Nlist *np;
-	static Token onetoken[1] = {{ NUMBER, 0, 0, 0, 1, (uchar*)"1" }};
+	static uchar one[] = "1";	/* writable: see tokval */
+	static Token onetoken[1] = {{ NUMBER, 0, 0, 0, 1, one }};
 	static Tokenrow onetr = { onetoken, onetoken, onetoken+1, 1 };
 
 	trp->tp = trp->bp;
-- 
2.43.0


From eadb1c86f87ac57954795a768efb25b224ac6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 065/110] fix: the newline at the end of a file is supplied
 once

---
 lcc/cpp/cpp.h    | 1 +
 lcc/cpp/cpplex.c | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index 9d23afb..f013dab 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -61,6 +61,7 @@ typedef struct source {
 	uchar	*inl;		/* end of input */
 	int	fd;		/* input source */
 	int	ifdepth;	/* conditional nesting in include */
+	int	nlsupplied;	/* newline at the end has been supplied */
 	struct	source *next;	/* stack for #include */
 } Source;
 
diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 416f9de..6962d31 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -408,7 +408,9 @@ gettokens(Tokenrow *trp, int reset)
 				tp->type = END;
 				tp->len = 0;
 				s->inp = ip;
-				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1) {
+				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1
+				 && !s->nlsupplied) {
+					s->nlsupplied = 1;
 					error(WARNING,"No newline at end of file");
 					*tp = nltoken;	/* supply it; END comes next */
 				}
@@ -573,6 +575,7 @@ setsource(char *name, int fd, char *str)
 	s->filename = name;
 	s->next = cursource;
 	s->ifdepth = 0;
+	s->nlsupplied = 0;
 	cursource = s;
 	/* slop at right for EOB */
 	if (str) {
-- 
2.43.0


From dd231e378a7dfca714efce3835ac25c4fb93b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 066/110] fix: #line continued over several lines numbers the
 next line right

---
 lcc/cpp/cpp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index fc12990..622dbe3 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -226,9 +226,10 @@ control(Tokenrow *trp)
 			error(ERROR, "Syntax error in #line");
 			return;
 		}
-		cursource->line = atol((char*)tp->t)-1;
-		if (cursource->line<0 || cursource->line>=32768)
+		cursource->line = atol((char*)tp->t);
+		if (cursource->line<1 || cursource->line>32768)
 			error(WARNING, "#line specifies number out of range");
+		cursource->line -= cursource->lineinc;	/* the next line has this number */
 		tp = tp+1;
 		if (tp+1<trp->lp)
 			cursource->filename=(char*)newstring(tp->t+1,tp->len-2,0);
-- 
2.43.0


From 03a203fa03d33d73606d1d359cbc93c46627dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 067/110] fix: white space in the parameters of a macro does
 not make its redefinition another

---
 lcc/cpp/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 97c8161..17cd342 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -46,7 +46,8 @@ dodefine(Tokenrow *trp)
 					if (atp->len==tp->len
 					 && strncmp((char*)atp->t, (char*)tp->t, tp->len)==0)
 						error(ERROR, "Duplicate macro argument");
-				*args->lp++ = *tp;
+				*args->lp = *tp;
+				args->lp++->wslen = 0;	/* does not count */
 				narg++;
 				tp += 1;
 				if (tp->type==RP)
-- 
2.43.0


From 8a4f723f5e059754185c3e82c3fb4c5c01fdcc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 068/110] fix: a control line after the name of a function-like
 macro may begin with comments or continued lines

---
 lcc/cpp/cpplex.c | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 6962d31..0125997 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -538,6 +538,36 @@ fillbuf(Source *s)
 	return 0;
 }
 
+/*
+ * The character at inp+*ip, of the lines as they are after trigraphs and
+ * line folding, without reading it.
+ */
+static int
+lookahead(Source *s, int *ip)
+{
+	uchar *p;
+	int c, n;
+
+	for (;;) {
+		while (s->inp+*ip+3 >= s->inl && s->inl+INS/8 <= s->inb+INS
+		 && fillbuf(s)!=EOF)
+			;
+		p = s->inp+*ip;
+		if (p >= s->inl)
+			return EOF;
+		c = *p;
+		n = 1;
+		if (c=='?' && p+2<s->inl && p[1]=='?' && (p[2]=='=' || p[2]=='/')) {
+			c = p[2]=='=' ? '#' : '\\';
+			n = 3;
+		}
+		*ip += n;
+		if (c!='\\' || p+n>=s->inl || p[n]!='\n')
+			return c;
+		*ip += 1;
+	}
+}
+
 /*
  * Does the next line of the current source look like a control line?
  */
@@ -545,16 +575,20 @@ int
 nextcontrol(void)
 {
 	Source *s = cursource;
-	uchar *ip = s->inp;
+	int c, last, i = 0;
 
 	for (;;) {
-		if (ip >= s->inl) {
-			if (fillbuf(s)==EOF)
+		c = lookahead(s, &i);
+		if (c=='/') {
+			if (lookahead(s, &i)!='*')
 				return 0;
-		} else if (*ip==' ' || *ip=='\t' || *ip=='\v' || *ip=='\f')
-			ip++;
-		else
-			return *ip=='#' || (*ip=='?' && ip+2<s->inl && ip[1]=='?' && ip[2]=='=');
+			last = 0;
+			while ((c = lookahead(s, &i))!=EOF && (last!='*' || c!='/'))
+				last = c;
+		} else if (c!=' ' && c!='\t' && c!='\v' && c!='\f')
+			return c=='#';
+		if (c==EOF)
+			return 0;
 	}
 }
 
-- 
2.43.0


From d488a438f4679b9214bb6a4a6b59a4690bbebe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 069/110] fix: _ is part of a preprocessing number

---
 lcc/cpp/cpplex.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 0125997..2a7cd84 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -92,13 +92,11 @@ struct	fsm {
 	{NUM1,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM1,	{ C_NUM, C_ALPH, '.' },	NUM1},
 	{NUM1,	{ 'E', 'e' },	NUM2},
-	{NUM1,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw possible start of exponent, digits-e */
 	{NUM2,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM2,	{ '+', '-' },	NUM1},
 	{NUM2,	{ C_NUM, C_ALPH },	NUM1},
-	{NUM2,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw a '.', which could be a number or an operator */
 	{NUM3,	{ C_XX },	ACT(DOT,S_SELFB)},
-- 
2.43.0


From 377ded715ebe275159ad5a0f6c7315b51a70e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 070/110] fix: e+ after another e in a preprocessing number

---
 lcc/cpp/cpplex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 2a7cd84..14f69cd 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -97,6 +97,7 @@ struct	fsm {
 	{NUM2,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM2,	{ '+', '-' },	NUM1},
 	{NUM2,	{ C_NUM, C_ALPH },	NUM1},
+	{NUM2,	{ 'E', 'e' },	NUM2},
 
 	/* saw a '.', which could be a number or an operator */
 	{NUM3,	{ C_XX },	ACT(DOT,S_SELFB)},
-- 
2.43.0


From a026aaa400cef16ba735cef0972250c2546dd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 071/110] fix: terminate the driver's include[] when -lccdir
 sets its first entry

option() stores the directory of -lccdir= (and LCCDIR) in include[0], but
the array had only that one element: main() then read the terminator of
the list behind the end of the array.
---
 lcc/etc/bytecodelcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/etc/bytecodelcc.c b/lcc/etc/bytecodelcc.c
index a6936db..d2858f8 100644
--- a/lcc/etc/bytecodelcc.c
+++ b/lcc/etc/bytecodelcc.c
@@ -16,7 +16,7 @@ char inputs[256] = "";
 char *cpp[] = { "q3cpp" BINEXT,
 	"-D__STDC__=1", "-D__STRICT_ANSI__", "-D__signed__=signed", "-DQ3_VM",
 	"$1", "$2", "$3", 0 };
-char *include[] = { 0 };
+char *include[] = { 0, 0 };	/* [0]: set by -lccdir= */
 char *com[] = { "q3rcc" BINEXT, "-target=bytecode", "$1", "$2", "$3", 0 };
 char *ld[] = { 0 };
 char *as[] = { 0 };
-- 
2.43.0


From bfda6d4229c79fd3788c3085501a1f1df62e6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 072/110] fix: no code generation for the rest of a unit in
 which an error was diagnosed (it ran into failed assertions)

---
 lcc/src/dag.c  | 2 +-
 lcc/src/stmt.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 6ff184e..ac45cd8 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -103,7 +103,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 	int op;
 
 	assert(tlab || flab || (tlab == 0 && flab == 0));
-	if (tp == NULL)
+	if (tp == NULL || errcnt > 0)
 		return NULL;
 	if (tp->node)
 		return tp->node;
diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index a0c3c37..dd3e76d 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -594,7 +594,7 @@ void branch(int lab) {
 	}
 }
 void equatelab(Symbol old, Symbol new) {
-	assert(old->u.l.equatedto == NULL);
+	assert(errcnt || old->u.l.equatedto == NULL);
 	old->u.l.equatedto = new;
 	new->ref++;
 }
-- 
2.43.0


From d91b48913c34b659da073289e0b81519ba22b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 073/110] fix: redeclaring a typedef name or enumeration
 constant as an object or function crashed in export

---
 lcc/src/decl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 0ff8e90..da6d4e0 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -214,8 +214,13 @@ static Symbol dclglobal(int sclass, char *id, Type ty, Coordinate *pos) {
 	if (p && p->scope == GLOBAL) {
 		if (p->sclass != TYPEDEF && eqtype(ty, p->type, 1))
 			ty = compose(ty, p->type);
-		else
+		else {
 			error("redeclaration of `%s' previously declared at %w\n", p->name, &p->src);
+			if (p->sclass == TYPEDEF || p->sclass == ENUM) {
+				p->sclass = sclass;
+				(*IR->defsymbol)(p);
+			}
+		}
 
 		if (!isfunc(ty) && p->defined && t == '=')
 			error("redefinition of `%s' previously defined at %w\n", p->name, &p->src);
-- 
2.43.0


From 74f29deca6d985895b30e337f4c471c4b299a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 074/110] fix: a structure with a member of its own type
 recursed without end after the diagnostic

---
 lcc/src/decl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index da6d4e0..3ac05b5 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -594,9 +594,11 @@ static void fields(Type ty) {
 					error("field name missing\n");
 				else if (isfunc(p->type))
 					error("`%t' is an illegal field type\n", p->type);
-				else if (p->type->size == 0)
+				else if (p->type->size == 0) {
 					error("undefined size for field `%t %s'\n",
 						p->type, id);
+					p->type = inttype;
+				}
 			}
 			if (isconst(p->type))
 				ty->u.sym->u.s.cfields = 1;
-- 
2.43.0


From cc8c3287ba55eebd6e75ea75ad8b92a337639607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 075/110] fix: a structure- or union-valued function may end
 without return

---
 lcc/src/decl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 3ac05b5..c0c8ffa 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -781,7 +781,7 @@ static void funcdefn(int sclass, char *id, Type ty, Symbol params[], Coordinate
 		if (cp->kind != Jump) {
 			if (rty != voidtype) {
 				warning("missing return value\n");
-				retcode(cnsttree(inttype, 0L));
+				retcode(isstruct(rty) ? NULL : cnsttree(inttype, 0L));
 			} else
 				retcode(NULL);
 		}
-- 
2.43.0


From d0ccd8fdcaa870c97ed5c41245f920bb57291fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 076/110] fix: an object of an unknown enumeration type failed
 an assertion after the diagnostic

---
 lcc/src/decl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index c0c8ffa..760f0d3 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -1150,6 +1150,8 @@ Type enumdcl(void) {
 		error("unknown enumeration `%s'\n",  tag);
 		ty = newstruct(ENUM, tag);
 		ty->type = inttype;
+		ty->size = ty->type->size;
+		ty->align = ty->type->align;
 	}
 	if (*tag && xref)
 		use(p, pos);
-- 
2.43.0


From 53e2e7d6ff05b4e7990e1f184f88b113d401686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 077/110] fix: an undeclared identifier at file scope left a
 freed symbol in the symbol table

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 4fc48ec..feeb4c6 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -365,7 +365,7 @@ static Tree primary(void) {
 		   p = idtree(tsym->u.c.loc); break;
 	case ID:   if (tsym == NULL)
 		   	{
-				Symbol p = install(token, &identifiers, level, FUNC);
+				Symbol p = install(token, &identifiers, level, level < LOCAL ? PERM : FUNC);
 				p->src = src;
 				if (getchr() == '(') {
 					Symbol q = lookup(token, externals);
-- 
2.43.0


From fbbe75472109a154ae499653615275d874d84c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 078/110] fix: initializing a structure whose members are still
 being declared crashed

---
 lcc/src/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 5ad40c0..284206e 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -218,7 +218,8 @@ Type initializer(Type ty, int lev) {
 		deallocate(STMT);
 		needconst--;
 	}
-	if ((isunion(ty) || isstruct(ty)) && ty->size == 0) {
+	if ((isunion(ty) || isstruct(ty))
+	&& (ty->size == 0 || ty->u.sym->u.s.flist == NULL)) {
 		static char follow[] = { CHAR, STATIC, 0 };
 		error("cannot initialize undefined `%t'\n", ty);
 		skipto(';', follow);
-- 
2.43.0


From f78af70fb2cd7e79d95639bfa98b4e69ed08d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 079/110] fix: calling an undeclared function at file scope (as
 in sizeof f()) left a symbol without a name to import

---
 lcc/src/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index feeb4c6..8702d33 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -384,6 +384,8 @@ static Tree primary(void) {
 						(*IR->defsymbol)(q);
 					}
 					p->u.alias = q;
+					if (p->scope == GLOBAL)
+						(*IR->defsymbol)(p);
 				} else {
 					error("undeclared identifier `%s'\n", p->name);
 					p->sclass = AUTO;
-- 
2.43.0


From 964fc7a2f881a2cf4347f21f34b0b7f87fbd1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 080/110] fix: an object redeclaring an enumeration constant
 with its enumeration's type was accepted

---
 lcc/src/decl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 760f0d3..c5fd3e1 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -212,7 +212,8 @@ static Symbol dclglobal(int sclass, char *id, Type ty, Coordinate *pos) {
 	}
 	p = lookup(id, globals);
 	if (p && p->scope == GLOBAL) {
-		if (p->sclass != TYPEDEF && eqtype(ty, p->type, 1))
+		if (p->sclass != TYPEDEF && p->sclass != ENUM
+		&& eqtype(ty, p->type, 1))
 			ty = compose(ty, p->type);
 		else {
 			error("redeclaration of `%s' previously declared at %w\n", p->name, &p->src);
-- 
2.43.0


From 5a9522d9f156e847bbac4b06f552d9823d7597b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 081/110] fix: a warning without newline ran into the next
 diagnostic

---
 lcc/src/stmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index dd3e76d..b9328da 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -590,7 +590,7 @@ void branch(int lab) {
 		if (cp->kind == Label
 		&&  cp->u.forest->op == LABEL+V
 		&&  equal(cp->u.forest->syms[0], p))
-			warning("source code specifies an infinite loop");
+			warning("source code specifies an infinite loop\n");
 	}
 }
 void equatelab(Symbol old, Symbol new) {
-- 
2.43.0


From eb0a24ffbdec09e7e02b239a61e2396ceb63e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 082/110] fix: a function could not return a structure with a
 const member

---
 lcc/src/stmt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index b9328da..f4f1590 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -500,7 +500,11 @@ void retcode(Tree p) {
 					tree(CALL+B, p->type,
 						p->kids[0]->kids[0], idtree(retv)),
 					rvalue(idtree(retv)));
-			else
+			else if (isstruct(p->type) && unqual(p->type)->u.sym->u.s.cfields) {
+				unqual(p->type)->u.sym->u.s.cfields = 0;
+				p = asgntree(ASGN, rvalue(idtree(retv)), p);
+				unqual(p->type)->u.sym->u.s.cfields = 1;
+			} else
 				p = asgntree(ASGN, rvalue(idtree(retv)), p);
 			walk(p, 0, 0);
 			if (events.returns)
-- 
2.43.0


From 4e3700908f6aa32a1b6444e6494299bf380634cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 083/110] fix: a cast to a qualified pointer type gave a value
 that could not be an operand of ?:

---
 lcc/src/expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 8702d33..27c76d4 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -255,9 +255,9 @@ static Tree unary(void) {
 				ty1 = inttype;
 			}
 			if (generic(p->op) == INDIR || ty->size == 0)
-				p = tree(RIGHT, ty1, NULL, p);
+				p = tree(RIGHT, unqual(ty1), NULL, p);
 			else
-				p = retype(p, ty1);
+				p = retype(p, unqual(ty1));
 		} else
 			p = postfix(expr(')'));
 		break;
-- 
2.43.0


From b8e73f6984737d59c35234d439577247ddf530ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 084/110] fix: assigning to a structure with a const member
 inside an array or structure member was accepted

---
 lcc/src/decl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index c5fd3e1..bdf6c09 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -601,8 +601,14 @@ static void fields(Type ty) {
 					p->type = inttype;
 				}
 			}
-			if (isconst(p->type))
-				ty->u.sym->u.s.cfields = 1;
+			{
+				Type mty = p->type;
+				while (isarray(mty))
+					mty = mty->type;
+				if (isconst(mty)
+				|| (isstruct(mty) && unqual(mty)->u.sym->u.s.cfields))
+					ty->u.sym->u.s.cfields = 1;
+			}
 			if (isvolatile(p->type))
 				ty->u.sym->u.s.vfields = 1;
 	  		n++;
-- 
2.43.0


From b01d004f42d4eaf1428193bf11166ed601936cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 085/110] fix: an enumeration constant redeclaring a parameter
 was accepted

---
 lcc/src/decl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index bdf6c09..170fb54 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -1115,7 +1115,8 @@ Type enumdcl(void) {
 		while (t == ID) {
 			char *id = token;
 			Coordinate s;
-			if (tsym && tsym->scope == level)
+			if (tsym && (tsym->scope == level
+			|| (tsym->scope == PARAM && level == LOCAL)))
 				error("redeclaration of `%s' previously declared at %w\n",
 					token, &tsym->src);
 			s = src;
-- 
2.43.0


From 6bdb2527713732ae6feb072d4d0bf6f064fd9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 086/110] fix: a type name used as an object crashed after the
 diagnostic

---
 lcc/src/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 27c76d4..4c15c24 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -405,9 +405,11 @@ static Tree primary(void) {
 		   if (tsym->sclass == ENUM)
 		   	p = cnsttree(inttype, (long)tsym->u.value);
 		   else {
-		   	if (tsym->sclass == TYPEDEF)
+		   	if (tsym->sclass == TYPEDEF) {
 		   		error("illegal use of type name `%s'\n", tsym->name);
-		   	p = idtree(tsym);
+		   		p = cnsttree(inttype, 0L);
+		   	} else
+		   		p = idtree(tsym);
 		   } break;
 	case FIRSTARG:
 		if (level > PARAM && cfunc && cfunc->u.f.callee[0])
-- 
2.43.0


From 3ecefb3a0be8b73d991e35f970e022c661c642c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 087/110] fix: operators whose result is an operand (a+0, +a,
 1?a:b) could be assigned to

---
 lcc/src/expr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 4c15c24..51518cc 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -81,6 +81,12 @@ static Tree operand(Tree p) {
 		p = cast(p, inttype);
 	return p;
 }
+/* nonlvalue - the result p of an operator, which is no lvalue even if an operand was returned for it */
+static Tree nonlvalue(Tree p) {
+	if ((generic(p->op) == INDIR || p->op == FIELD) && isscalar(p->type))
+		p = tree(RIGHT, p->type, NULL, p);
+	return p;
+}
 Tree incr(int op, Tree v, Tree e) {
 	return asgntree(ASGN, v, (*optree[op])(oper[op], operand(v), operand(e)));
 }
@@ -104,7 +110,7 @@ static Tree expr2(void) {
 				apply(events.points, &pts[0], &l);
 				apply(events.points, &pts[1], &r);
 			}
-		p = condtree(p, l, r);
+		p = nonlvalue(condtree(p, l, r));
 	}
 	return p;
 }
@@ -136,7 +142,7 @@ static Tree expr3(int k) {
 					apply(events.points, &pt, &r);
 			} else
 				r = operand(expr3(k1 + 1));
-			p = (*optree[op])(oper[op], p, r); 
+			p = nonlvalue((*optree[op])(oper[op], p, r));
 		}
 	return p;
 }
@@ -165,7 +171,7 @@ static Tree unary(void) {
  break;
 	case '+':    t = gettok(); p = unary(); p = operand(p);
 						  if (isarith(p->type))
-						  	p = cast(p, promote(p->type));
+						  	p = nonlvalue(cast(p, promote(p->type)));
 						  else
 						  	typeerror(ADD, p, NULL);  break;
 	case '-':    t = gettok(); p = unary(); p = operand(p);
-- 
2.43.0


From 4cf58589c20daba729492481b8b9d69462082342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 088/110] fix: assigning a structure to a bit-field failed an
 assertion after the diagnostic

---
 lcc/src/enode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 1c5bdf6..e933852 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -295,7 +295,9 @@ Tree asgntree(int op, Tree l, Tree r) {
 		r = cast(r, ty);
 	else {
 		typeerror(ASGN, l, r);
-		if (r->type == voidtype)
+		if (l->op == FIELD)
+			r = cnsttree(inttype, 0L);
+		else if (r->type == voidtype)
 			r = retype(r, inttype);
 		ty = r->type;
 	}
-- 
2.43.0


From dc3be38589b0a55a1332eb865508051b3485251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 089/110] fix: initialisers went into the unnamed bit-field at
 the end of a structure

---
 lcc/src/init.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 284206e..368dbc7 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -179,8 +179,13 @@ static int initstruct(int len, Type ty, int lev) {
 		if (p->link) {
 			p = p->link;
 			a = p->type->align;
-		} else
+		} else {
 			a = ty->align;
+			if (!isunion(ty) && n < ty->size) {	/* an unnamed bit-field follows */
+				(*IR->space)(ty->size - n);
+				n = ty->size;
+			}
+		}
 		if (a && n%a) {
 			(*IR->space)(a - n%a);
 			n = roundup(n, a);
-- 
2.43.0


From a86acb0ffbf27307285e5abf5df6fbfc2c80e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 090/110] fix: a structure-valued call in a ?: whose value is
 not used failed an assertion

---
 lcc/src/tree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/src/tree.c b/lcc/src/tree.c
index c465a62..6b2f5d9 100644
--- a/lcc/src/tree.c
+++ b/lcc/src/tree.c
@@ -39,6 +39,7 @@ static Tree root1(Tree p) {
 	switch (generic(p->op)) {
 	case COND: {
 		Tree q = p->kids[1], x = NULL;
+		Symbol tmp = NULL;
 		assert(q && q->op == RIGHT);
 		if (p->u.sym && q->kids[1] && generic(q->kids[1]->op) == ASGN)
 			for (x = q->kids[1]->kids[1]; generic(x->op) == CVI || generic(x->op) == CVU; )
@@ -47,6 +48,9 @@ static Tree root1(Tree p) {
 		&&  x->kids[0] == p->kids[0]->kids[0])
 			/* de-construct float to unsigned conversion */
 			return root1(x->kids[0]);
+		if ((q->kids[0] && generic(q->kids[0]->op) == CALL)
+		||  (q->kids[1] && generic(q->kids[1]->op) == CALL))
+			tmp = p->u.sym;	/* receives the structure returned by the call */
 		if (p->u.sym && q->kids[0] && generic(q->kids[0]->op) == ASGN)
 			q->kids[0] = root1(q->kids[0]->kids[1]);
 		else
@@ -55,7 +59,7 @@ static Tree root1(Tree p) {
 			q->kids[1] = root1(q->kids[1]->kids[1]);
 		else
 			q->kids[1] = root1(q->kids[1]);
-		p->u.sym = 0;
+		p->u.sym = tmp;
 		if (q->kids[0] == 0 && q->kids[1] == 0)
 			p = root1(p->kids[0]);
 		}
-- 
2.43.0


From d7873ed42ae7072eb8ac2b84790959aad182cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 091/110] fix: a typedef name redeclaring a parameter was
 accepted

---
 lcc/src/decl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 170fb54..4466008 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -177,7 +177,7 @@ static void decl(Symbol (*dcl)(int, char *, Type, Coordinate *)) {
 			else if (sclass == TYPEDEF)
 				{
 					Symbol p = lookup(id, identifiers);
-					if (p && p->scope == level)
+					if (p && (p->scope == level || (p->scope == PARAM && level == LOCAL)))
 						error("redeclaration of `%s'\n", id);
 					p = install(id, &identifiers, level,
 						level < LOCAL ? PERM : FUNC);
-- 
2.43.0


From f20287755f8b052474fba9df8de9c9fe5de59a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 092/110] fix: a second = before the initializer of a local
 array or structure was accepted

---
 lcc/src/decl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 4466008..b17441e 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -278,7 +278,7 @@ static void initglobal(Symbol p, int flag) {
 			defglobal(p, isconst(ty) ? LIT : DATA);
 		} else
 			defglobal(p, DATA);
-		if (t == '=')
+		if (!flag)
 			t = gettok();
 		ty = initializer(p->type, 0);
 		if (isarray(p->type) && p->type->size == 0)
-- 
2.43.0


From a89b0b55d57deee465d78653d7e9a8f2228b73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 093/110] fix: a trailing comma in the braced initializer of a
 local scalar was a syntax error

---
 lcc/src/decl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index b17441e..1687d7f 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -1007,6 +1007,8 @@ static Symbol dcllocal(int sclass, char *id, Type ty, Coordinate *pos) {
 			if (t == '{') {
 				t = gettok();
 				e = expr1(0);
+				if (t == ',')
+					t = gettok();
 				expect('}');
 			} else
 				e = expr1(0);
-- 
2.43.0


From 39d651bdc37c9f808bc304a64c536b6a9ef156e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:14 +0000
Subject: [PATCH 094/110] fix: prefix ++ and -- accepted an array reached
 through a pointer

---
 lcc/src/expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 51518cc..a5777a0 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -196,8 +196,8 @@ static Tree unary(void) {
 						  	p = simplify(NOT, inttype, cond(p), NULL);
 						  else
 						  	typeerror(NOT, p, NULL); break;
-	case INCR:   t = gettok(); p = unary(); p = incr(INCR, pointer(p), consttree(1, inttype)); break;
-	case DECR:   t = gettok(); p = unary(); p = incr(DECR, pointer(p), consttree(1, inttype)); break;
+	case INCR:   t = gettok(); p = unary(); p = incr(INCR, p, consttree(1, inttype)); break;
+	case DECR:   t = gettok(); p = unary(); p = incr(DECR, p, consttree(1, inttype)); break;
 	case TYPECODE: case SIZEOF: { int op = t;
 				      Type ty;
 				      p = NULL;
-- 
2.43.0


From 407d313db591d10e6fdcfc4e8993d7b0c576ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 095/110] fix: the type of ?: on pointers to compatible types
 is the composite type

---
 lcc/src/enode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index e933852..b301b27 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -346,7 +346,7 @@ Tree condtree(Tree e, Tree l, Tree r) {
 	if (isarith(xty) && isarith(yty))
 		ty = binary(xty, yty);
 	else if (eqtype(xty, yty, 1))
-		ty = unqual(xty);
+		ty = unqual(compose(xty, yty));
 	else if (isptr(xty)   && isnullptr(r))
 		ty = xty;
 	else if (isnullptr(l) && isptr(yty))
@@ -356,7 +356,7 @@ Tree condtree(Tree e, Tree l, Tree r) {
 		ty = voidptype;
 	else if ((isptr(xty) && isptr(yty)
 		 && eqtype(unqual(xty->type), unqual(yty->type), 1)))
-		ty = xty;
+		ty = ptr(compose(unqual(xty->type), unqual(yty->type)));
 	else {
 		typeerror(COND, l, r);
 		return consttree(0, inttype);
-- 
2.43.0


From 4569896c21442ec1f7e6a909c97b35b044633171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 096/110] fix: an identifier declared extern in a block had the
 type of another declaration of it

---
 lcc/src/decl.c | 5 ++++-
 lcc/src/expr.c | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 1687d7f..88c6155 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -954,7 +954,10 @@ static Symbol dcllocal(int sclass, char *id, Type ty, Coordinate *pos) {
 			ty = compose(ty, q->type);
 		else
 			error("redeclaration of `%s' previously declared at %w\n", q->name, &q->src);
-	}
+	} else if (sclass == EXTERN && q
+	&& (q->sclass == EXTERN || (q->scope == GLOBAL && q->sclass != TYPEDEF && q->sclass != ENUM))
+	&& eqtype(q->type, ty, 1))
+		ty = compose(ty, q->type);
 
 	assert(level >= LOCAL);
 	p = install(id, &identifiers, level, sclass == STATIC || sclass == EXTERN ? PERM : FUNC);
diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index a5777a0..79b88ac 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -435,7 +435,7 @@ static Tree primary(void) {
 Tree idtree(Symbol p) {
 	int op;
 	Tree e;
-	Type ty = p->type ? unqual(p->type) : voidptype;
+	Type pty = p->type, ty = pty ? unqual(pty) : voidptype;
 
 	if (p->scope == GLOBAL || p->sclass == STATIC)
 		op = ADDRG;
@@ -455,11 +455,11 @@ Tree idtree(Symbol p) {
 		op = ADDRL;
 	p->ref += refinc;
 	if (isarray(ty))
-		e = tree(mkop(op,voidptype), p->type,      NULL, NULL);
+		e = tree(mkop(op,voidptype), pty,      NULL, NULL);
 	else if (isfunc(ty))
-		e = tree(mkop(op,funcptype), p->type,      NULL, NULL);
+		e = tree(mkop(op,funcptype), pty,      NULL, NULL);
 	else
-		e = tree(mkop(op,voidptype), ptr(p->type), NULL, NULL);
+		e = tree(mkop(op,voidptype), ptr(pty), NULL, NULL);
 	e->u.sym = p;
 	if (isptr(e->type))
 		e = rvalue(e);
-- 
2.43.0


From 0529c7139c70adf19edd95b30cc12e653aa1c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 097/110] fix: the map file's malloc'd buffer was handed to the
 host's Com_free

---
 src/vm/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8badab6..8bd266b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -350,7 +350,7 @@ static const char* VM_ValueToSymbol(vm_t* vm, int value);
 static void VM_LoadSymbols(vm_t* vm);
 /** Load the file into a malloc'd buffer.
  * @param[in] filepath File to load.
- * @return file content in buffer. Call Com_free() to cleanup. */
+ * @return file content in buffer. Call free() to cleanup. */
 static uint8_t* loadImage(const char* filepath, int* imageSize);
 /** Print a stack trace on OP_ENTER if vm_debugLevel is > 0 */
 static void VM_StackTrace(vm_t* vm, int programCounter, int programStack);
@@ -1993,7 +1993,7 @@ static void VM_LoadSymbols(vm_t* vm)
 
     vm->numSymbols = count;
     Com_Printf("%i symbols parsed from %s\n", count, symbols);
-    Com_free(mapfile.v, NULL, VM_ALLOC_DEBUG);
+    free(mapfile.v);
 }
 
 static void VM_StackTrace(vm_t* vm, int programCounter, int programStack)
-- 
2.43.0


From 223125b59554d22ee5bcfc3aec93ce314a17ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 098/110] fix: the map file was parsed past the end of its
 buffer (no terminator)

---
 src/vm/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8bd266b..3824ce2 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1748,7 +1748,7 @@ uint8_t* loadImage(const char* filepath, int* size)
     }
     rewind(f);
 
-    image = (uint8_t*)malloc(sz);
+    image = (uint8_t*)malloc(sz + 1); /* room for a terminating zero */
     if (!image)
     {
         fclose(f);
@@ -1763,7 +1763,8 @@ uint8_t* loadImage(const char* filepath, int* size)
     }
 
     fclose(f);
-    *size = sz;
+    image[sz] = 0;
+    *size     = sz;
     return image;
 }
 
-- 
2.43.0


From e7bd9aa5643c8a9243aad7a9d94dec4376682877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 099/110] fix: an unterminated quoted string in a map file was
 read past its end

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 3824ce2..8f9285e 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1870,7 +1870,7 @@ static char* COM_Parse(char** data_p)
             if (c == '\"' || !c)
             {
                 com_token[len] = 0;
-                *data_p        = (char*)data;
+                *data_p        = (char*)(c ? data : data - 1);
                 return com_token;
             }
             if (c == '\n')
-- 
2.43.0


From b819813f8ba4a036e85e440e28524da91daf5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 100/110] fix: a dot in a directory name or inside a module's
 name cut its map file's path short

---
 src/vm/vm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8f9285e..6d2529f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1718,11 +1718,21 @@ static int ParseHex(const char* text)
 
 static void COM_StripExtension(const char* in, char* out)
 {
-    while (*in && *in != '.')
+    char* extension = NULL; /* last dot in the last path component */
+
+    while (*in)
     {
+        if (*in == '/' || *in == '\\')
+        {
+            extension = NULL;
+        }
+        else if (*in == '.')
+        {
+            extension = out;
+        }
         *out++ = *in++;
     }
-    *out = 0;
+    *(extension ? extension : out) = 0;
 }
 
 uint8_t* loadImage(const char* filepath, int* size)
-- 
2.43.0


From bfb70f06c977dcc6c81eb095f49a6367ac4cb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 101/110] fix: a profile report without executed instructions
 printed undefined percentages

---
 src/vm/vm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 6d2529f..a424f1f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2078,7 +2078,11 @@ void VM_VmProfile_f(const vm_t* vm)
 
         sym = sorted[i];
 
-        perc = (int)(100 * (float)sym->profileCount / total);
+        perc = 0;
+        if (total > 0)
+        {
+            perc = (int)(100 * (float)sym->profileCount / total);
+        }
         Com_Printf("%2i%% %9i %s\n", perc, sym->profileCount, sym->symName);
         sym->profileCount = 0;
     }
-- 
2.43.0


From d914bd8459294dff33d15ffacdd37d80d559992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 102/110] fix: the debug trace named the function in front of
 the one entered

---
 src/vm/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index a424f1f..7f601b9 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1213,9 +1213,9 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
-                           VM_ValueToSymbol(vm, programCounter - 5));
+                           VM_ValueToSymbol(vm, programCounter - 2));
                 if (vm->breakFunction &&
-                    programCounter - 5 == vm->breakFunction)
+                    programCounter - 2 == vm->breakFunction)
                 {
                     /* this is to allow setting breakpoints here in the
                      * debugger */
-- 
2.43.0


From e0aa174ceb6c2f3cdc95dfa1bdb29b9dd034311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 103/110] fix: lburg wrote a file named - instead of its
 standard output

---
 lcc/lburg/lburg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index c43c96a..49d281a 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -63,7 +63,7 @@ int main(int argc, char *argv[]) {
 		} else if (outfp == NULL) {
 			if (strcmp(argv[i], "-") == 0)
 				outfp = stdout;
-			if ((outfp = fopen(argv[i], "w")) == NULL) {
+			else if ((outfp = fopen(argv[i], "w")) == NULL) {
 				yyerror("%s: can't write `%s'\n", argv[0], argv[i]);
 				exit(1);
 			}
-- 
2.43.0


From 2bab12a6820ab4fce7b1ba8fb2c605d22bb1a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 104/110] fix: lburg's labeller cleared one hard-coded rule
 field, so that a prefix or another start symbol did not compile and other
 fields stayed undefined

---
 lcc/lburg/lburg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index 49d281a..b681fd6 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -512,12 +512,14 @@ static void emitkids(Rule rules, int nrules) {
 static void emitlabel(Term terms, Nonterm start, int ntnumber) {
 	int i;
 	Term p;
+	Nonterm q;
 
 	print("static void %Plabel(NODEPTR_TYPE a) {\n%1int c;\n"
 "%1struct %Pstate *p;\n\n"
 "%1if (!a)\n%2fatal(\"%Plabel\", \"Null tree\\n\", 0);\n");
-	print("%1STATE_LABEL(a) = p = allocate(sizeof *p, FUNC);\n"
-"%1p->rule._stmt = 0;\n");
+	print("%1STATE_LABEL(a) = p = allocate(sizeof *p, FUNC);\n");
+	for (q = nts; q; q = q->link)
+		print("%1p->rule.%P%S = 0;\n", q);
 	for (i = 1; i <= ntnumber; i++)
 		print("%1p->cost[%d] =\n", i);
 	print("%20x7fff;\n%1switch (OP_LABEL(a)) {\n");
-- 
2.43.0


From 5db9b780bbe02b7615f0cb95cb876b2b4c1e0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 105/110] fix: lburg read outside of its line buffer when the
 input ended within a line

---
 lcc/lburg/gram.c | 5 +++--
 lcc/lburg/gram.y | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lcc/lburg/gram.c b/lcc/lburg/gram.c
index 94fd3b3..a10fada 100644
--- a/lcc/lburg/gram.c
+++ b/lcc/lburg/gram.c
@@ -1600,7 +1600,7 @@ int yylex(void) {
 		bp += strspn(bp, " \t\f");
 		p = strchr(bp, '\n');
 		if (p == NULL)
-			p = strchr(bp, '\n');
+			p = strchr(bp, '\0');
 		while (p > bp && isspace(p[-1]))
 			p--;
 		yylval.string = alloc(p - bp + 1);
@@ -1655,7 +1655,8 @@ int yylex(void) {
 					n = 10*n + d;
 				c = get();
 			} while (c != EOF && isdigit(c));
-			bp--;
+			if (c != EOF)
+				bp--;
 			yylval.n = n;
 			return INT;
 		} else if (isalpha(c)) {
diff --git a/lcc/lburg/gram.y b/lcc/lburg/gram.y
index c0a9c94..d543985 100644
--- a/lcc/lburg/gram.y
+++ b/lcc/lburg/gram.y
@@ -117,7 +117,7 @@ int yylex(void) {
 		bp += strspn(bp, " \t\f");
 		p = strchr(bp, '\n');
 		if (p == NULL)
-			p = strchr(bp, '\n');
+			p = strchr(bp, '\0');
 		while (p > bp && isspace(p[-1]))
 			p--;
 		yylval.string = alloc(p - bp + 1);
@@ -172,7 +172,8 @@ int yylex(void) {
 					n = 10*n + d;
 				c = get();
 			} while (c != EOF && isdigit(c));
-			bp--;
+			if (c != EOF)
+				bp--;
 			yylval.n = n;
 			return INT;
 		} else if (isalpha(c)) {
-- 
2.43.0


From 63dc6353f50b9001ba1ba65daf23bbd919d01add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 106/110] fix: lburg looped or crashed when a symbol was
 defined twice or a nonterminal was given operands

---
 lcc/lburg/lburg.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index b681fd6..2448490 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -191,10 +191,11 @@ Nonterm nonterm(char *id) {
 Term term(char *id, int esn) {
 	Term p = lookup(id), *q = &terms;
 
-	if (p)
+	if (p) {
 		yyerror("redefinition of terminal `%s'\n", id);
-	else
-		p = install(id);
+		return p;
+	}
+	p = install(id);
 	p->kind = TERM;
 	p->esn = esn;
 	p->arity = -1;
@@ -223,10 +224,8 @@ Tree tree(char *id, Tree left, Tree right) {
 		p = term(id, -1);
 	} else if (p == NULL && arity == 0)
 		p = (Term)nonterm(id);
-	else if (p && p->kind == NONTERM && arity > 0) {
+	else if (p && p->kind == NONTERM && arity > 0)
 		yyerror("`%s' is a nonterminal\n", id);
-		p = term(id, -1);
-	}
 	if (p->kind == TERM && p->arity == -1)
 		p->arity = arity;
 	if (p->kind == TERM && arity != p->arity)
-- 
2.43.0


From b67fd933bdb17d3947fe8dd944c6b9b92125124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 107/110] fix: lburg crashed when it generated code from a
 grammar with errors

---
 lcc/lburg/lburg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index 2448490..875578a 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -81,6 +81,8 @@ int main(int argc, char *argv[]) {
 		if (!p->reached)
 			yyerror("can't reach nonterminal `%s'\n", p->name);
 	}
+	if (errcnt > 0)
+		return 1;
 	emitheader();
 	emitdefs(nts, ntnumber);
 	emitstruct(nts, ntnumber);
-- 
2.43.0


From 9dcb070069eaa7f61e48316eec8cd7782ab94ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 108/110] fix: lburg overflowed its buffers on deep or wide
 patterns

---
 lcc/lburg/lburg.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index 875578a..08ddf37 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -120,12 +120,17 @@ void *alloc(int nbytes) {
 /* stringf - format and save a string */
 static char *stringf(char *fmt, ...) {
 	va_list ap;
-	char buf[512];
+	char *buf;
+	int n;
 
 	va_start(ap, fmt);
-	vsprintf(buf, fmt, ap);
+	n = vsnprintf(NULL, 0, fmt, ap);
 	va_end(ap);
-	return strcpy(alloc(strlen(buf) + 1), buf);
+	buf = alloc(n + 1);
+	va_start(ap, fmt);
+	vsnprintf(buf, n + 1, fmt, ap);
+	va_end(ap);
+	return buf;
 }	
 
 struct entry {
@@ -465,13 +470,13 @@ static void emitheader(void) {
 	print("static int %Prule(void*, int);\n\n");
 }
 
-/* computekids - compute paths to kids in tree t */
+/* computekids - append paths to kids in tree t to bp */
 static char *computekids(Tree t, char *v, char *bp, int *ip) {
 	Term p = t->op;
 
 	if (p->kind == NONTERM) {
-		sprintf(bp, "\t\tkids[%d] = %s;\n", (*ip)++, v);
-		bp += strlen(bp);
+		bp = stringf("%s\t\tkids[%d] = %s;\n", bp, *ip, v);
+		(*ip)++;
 	} else if (p->arity > 0) {
 		bp = computekids(t->left, stringf("LEFT_CHILD(%s)", v), bp, ip);
 		if (p->arity == 2)
@@ -488,12 +493,11 @@ static void emitkids(Rule rules, int nrules) {
 
 	for (i = 0, r = rules; r; r = r->link) {
 		int j = 0;
-		char buf[1024], *bp = buf;
-		*computekids(r->pattern, "p", bp, &j) = 0;
+		char *buf = computekids(r->pattern, "p", "", &j);
 		for (j = 0; str[j] && strcmp(str[j], buf); j++)
 			;
 		if (str[j] == NULL)
-			str[j] = strcpy(alloc(strlen(buf) + 1), buf);
+			str[j] = buf;
 		r->kids = rc[j];
 		rc[j] = r;
 	}
@@ -530,14 +534,13 @@ static void emitlabel(Term terms, Nonterm start, int ntnumber) {
 "%2fatal(\"%Plabel\", \"Bad terminal %%d\\n\", OP_LABEL(a));\n%1}\n}\n\n");
 }
 
-/* computents - fill in bp with _nts vector for tree t */
+/* computents - append _nts vector for tree t to bp */
 static char *computents(Tree t, char *bp) {
 	if (t) {
 		Nonterm p = t->op;
-		if (p->kind == NONTERM) {
-			sprintf(bp, "%s_%s_NT, ", prefix, p->name);
-			bp += strlen(bp);
-		} else
+		if (p->kind == NONTERM)
+			bp = stringf("%s%s_%s_NT, ", bp, prefix, p->name);
+		else
 			bp = computents(t->right, computents(t->left,  bp));
 	}
 	return bp;
@@ -550,13 +553,12 @@ static void emitnts(Rule rules, int nrules) {
 	char **str = alloc((nrules + 1)*sizeof *str);
 
 	for (i = 0, r = rules; r; r = r->link) {
-		char buf[1024];
-		*computents(r->pattern, buf) = 0;
+		char *buf = computents(r->pattern, "");
 		for (j = 0; str[j] && strcmp(str[j], buf); j++)
 			;
 		if (str[j] == NULL) {
 			print("static short %Pnts_%d[] = { %s0 };\n", j, buf);
-			str[j] = strcpy(alloc(strlen(buf) + 1), buf);
+			str[j] = buf;
 		}
 		nts[i++] = j;
 	}
-- 
2.43.0


From 01882473dc691c70e7075e4f7b79ebdde84c1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 109/110] fix: the address of an array member behind a comma or
 a null-pointer check had the size of the array

---
 lcc/src/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 3989a2e..9597d70 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -333,10 +333,10 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 					simplify(ADD, r->kids[1]->type, l->kids[1], r->kids[1])));
 			if (l->op == RIGHT && l->kids[1])
 				return tree(RIGHT, ty, l->kids[0],
-					simplify(ADD+P, ty, l->kids[1], r));
+					simplify(ADD+P, isarray(ty) ? atop(ty) : ty, l->kids[1], r));
 			else if (l->op == RIGHT && l->kids[0])
 				return tree(RIGHT, ty,
-					simplify(ADD+P, ty, l->kids[0], r), NULL);
+					simplify(ADD+P, isarray(ty) ? atop(ty) : ty, l->kids[0], r), NULL);
 			break;
 
 		case ADD+F:
-- 
2.43.0


From 62ff9aa22f026643db7322c46f287d1720f50aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 110/110] fix: the compiler crashed dividing an out-of-range
 constant by -1

---
 lcc/src/simp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 9597d70..a9d46f9 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -251,7 +251,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			xcvtcnst(U,l->u.v.u,ty,d,(double)l->u.v.u);
 			break;
 		case CVF+I:
-			xcvtcnst(F,l->u.v.d,ty,i,(long)l->u.v.d);
+			xcvtcnst(F,l->u.v.d,ty,i,(long)extend((long)l->u.v.d,ty));
 			break;
 		case CVF+F: {
 			float d = 0.0f;
@@ -386,7 +386,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case DIV+I:
 			identity(r,l,I,i,1);
 			if ((r->op == CNST+I && r->u.v.i == 0)
-			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
+			||  (l->op == CNST+I && l->u.v.i <= ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
 				break;
 			xfoldcnst(I,i,/,divi);
@@ -466,7 +466,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			if (l->op != CNST+I && r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
 				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
-			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
+			||  (l->op == CNST+I && l->u.v.i <= ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
 				break;
 			xfoldcnst(I,i,%,divi);
-- 
2.43.0


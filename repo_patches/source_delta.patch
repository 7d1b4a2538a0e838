From 7453332b4d66b417b767985b8a1cac75c136bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 01/93] fix: sim86: zero flag of byte operations ignores the
 carry out of bit 7

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 0589925..b55628c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -374,7 +374,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & ((mask << 1) - 1)))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From 94cef1f6e7204c8799b0d08dc126a3327f7d9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 02/93] fix: sim86: INC and DEC set the zero, sign and overflow
 flags

---
 sim86.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index b55628c..2269344 100644
--- a/sim86.c
+++ b/sim86.c
@@ -517,23 +517,24 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+// INC/DEC set all arithmetic flags except carry
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int c = flags & FC;
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | c;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 void ReadAsciiz(char* dest, int sr, int off)
-- 
2.43.0


From 41f4da799f5d3529c33b61e03ae93e84655b6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 03/93] fix: sim86: keep register values within 16 bits on the
 host

---
 sim86.c | 50 +++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/sim86.c b/sim86.c
index 2269344..c660179 100644
--- a/sim86.c
+++ b/sim86.c
@@ -93,8 +93,10 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
+#define SEXT(x) x
 #else
 #define TRIM(x) ((x)&0xffff)
+#define SEXT(x) ((int)(TRIM(x)^0x8000)-0x8000)
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -284,13 +286,13 @@ int ReadReg(int r)
 void WriteReg(int r, unsigned val)
 {
     if (dsize) {
-        reg[r] = val;
+        reg[r] = TRIM(val);
         return;
     }
     const int h = r & 4;
     r &= 3;
     if (h) {
-        reg[r] = (reg[r]&0xff)|val<<8;
+        reg[r] = (reg[r]&0xff)|(val&0xff)<<8;
     } else {
         reg[r] = (reg[r]&0xff00)|(val&0xff);
     }
@@ -321,14 +323,14 @@ void WriteRM(int val)
 
 void DoPush(int val)
 {
-    reg[R_SP] -= 2;
+    reg[R_SP] = TRIM(reg[R_SP] - 2);
     Write16(SR_SS, reg[R_SP], val);
 }
 
 int DoPop(void)
 {
     const int v = Read16(SR_SS, reg[R_SP]);
-    reg[R_SP] += 2;
+    reg[R_SP] = TRIM(reg[R_SP] + 2);
     return v;
 }
 
@@ -883,7 +885,7 @@ int main(int argc, char** argv)
                 {
                     ModRM();
                     if (verbose) sprintf(insttext, "LEA %s, %s", RegName(modrm>>3&7), rmtext);
-                    reg[modrm>>3&7] = addr;
+                    reg[modrm>>3&7] = TRIM(addr);
                 }
                 break;
             case 0x8E:
@@ -893,11 +895,11 @@ int main(int argc, char** argv)
                 sreg[modrm>>3&7] = ReadRM();
                 break;
             case 0x98:
-                reg[R_AX] = (signed char)reg[R_AX];
+                reg[R_AX] = TRIM((signed char)reg[R_AX]);
                 if (verbose) sprintf(insttext, "CBW");
                 break;
             case 0x99:
-                reg[R_DX] = reg[R_AX]&0x8000 ? -1 : 0;
+                reg[R_DX] = reg[R_AX]&0x8000 ? TRIM(-1) : 0;
                 if (verbose) sprintf(insttext, "CWD");
                 break;
             case 0xA0:
@@ -934,8 +936,8 @@ int main(int argc, char** argv)
                     while (reg[R_CX]) {
                         Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
                         reg[R_CX] -= 1;
-                        reg[R_DI] += 1;
-                        reg[R_SI] += 1;
+                        reg[R_DI] = TRIM(reg[R_DI] + 1);
+                        reg[R_SI] = TRIM(reg[R_SI] + 1);
                     }
                 }
                 break;
@@ -946,8 +948,8 @@ int main(int argc, char** argv)
                     while (reg[R_CX]) {
                         Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
                         reg[R_CX] -= 1;
-                        reg[R_DI] += 2;
-                        reg[R_SI] += 2;
+                        reg[R_DI] = TRIM(reg[R_DI] + 2);
+                        reg[R_SI] = TRIM(reg[R_SI] + 2);
                     }
                 }
                 break;
@@ -959,8 +961,8 @@ int main(int argc, char** argv)
                     while ((flags & FZ) && reg[R_CX]) {
                         DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
-                        reg[R_DI] += 1;
-                        reg[R_SI] += 1;
+                        reg[R_DI] = TRIM(reg[R_DI] + 1);
+                        reg[R_SI] = TRIM(reg[R_SI] + 1);
                     }
                 }
                 break;
@@ -976,7 +978,8 @@ int main(int argc, char** argv)
                     }
                     const int v = reg[R_AX];
                     while (iter--) {
-                        Write8(SR_ES, reg[R_DI]++, v);
+                        Write8(SR_ES, reg[R_DI], v);
+                        reg[R_DI] = TRIM(reg[R_DI] + 1);
                     }
                 }
                 break;
@@ -993,7 +996,7 @@ int main(int argc, char** argv)
                     const int v = reg[R_AX];
                     while (iter--) {
                         Write16(SR_ES, reg[R_DI], v);
-                        reg[R_DI] += 2;
+                        reg[R_DI] = TRIM(reg[R_DI] + 2);
                     }
                 }
                 break;
@@ -1003,7 +1006,7 @@ int main(int argc, char** argv)
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
                     WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
-                    reg[R_SI] += 1;
+                    reg[R_SI] = TRIM(reg[R_SI] + 1);
                 }
                 break;
             case 0xAD:
@@ -1011,7 +1014,7 @@ int main(int argc, char** argv)
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
                     WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
-                    reg[R_SI] += 2;
+                    reg[R_SI] = TRIM(reg[R_SI] + 2);
                 }
                 break;
             case 0xAE:
@@ -1022,7 +1025,7 @@ int main(int argc, char** argv)
                     while (!(flags & FZ) && reg[R_CX]) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
-                        reg[R_DI] += 1;
+                        reg[R_DI] = TRIM(reg[R_DI] + 1);
                     }
                 }
                 break;
@@ -1147,7 +1150,7 @@ int main(int argc, char** argv)
                         {
                             if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
                             const unsigned int m = ReadRM();
-                            reg[R_AX] *= m;
+                            reg[R_AX] = TRIM(reg[R_AX] * m);
                             reg[R_DX] = 0;
                         }
                         break;
@@ -1163,10 +1166,11 @@ int main(int argc, char** argv)
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = SEXT(ReadRM());
+                            const int n = SEXT(reg[R_AX]);
+                            assert(reg[R_DX] == (n < 0 ? TRIM(-1) : 0));
+                            reg[R_DX] = TRIM(n % d);
+                            reg[R_AX] = TRIM(n / d);
                         }
                         break;
                     default:
-- 
2.43.0


From 5071ed87e5164e9a502d41b5d6fc6301cbac1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 04/93] fix: sim86: SHL/SHR/SAR use 16-bit operands, the full
 count and set all flags

---
 sim86.c | 92 ++++++++++++++++++++++-----------------------------------
 1 file changed, 35 insertions(+), 57 deletions(-)

diff --git a/sim86.c b/sim86.c
index c660179..672c570 100644
--- a/sim86.c
+++ b/sim86.c
@@ -539,6 +539,39 @@ void DEC(void)
     DoIncDec(OP_SUB);
 }
 
+// SHL/SHR/SAR R/M16, count
+void DoShift(const char* count, int n)
+{
+    ModRM();
+    const int op = modrm>>3&7;
+    const unsigned old = ReadRM();
+    unsigned v = old;
+    unsigned c = 0;
+    if (op != 4 && op != 5 && op != 7)
+        Fatal("TODO: shift %s /%d", count, op);
+    if (verbose) sprintf(insttext, "%s %s, %s", op == 4 ? "SHL" : op == 5 ? "SHR" : "SAR", rmtext, count);
+    if (!n)
+        return;
+    if (n > 17) // Everything (including carry) has been shifted out
+        n = 17;
+    while (n--) {
+        if (op == 4) {
+            c = v & 0x8000;
+            v = TRIM(v << 1);
+        } else {
+            c = v & 1;
+            v >>= 1;
+            if (op == 7) v |= old & 0x8000;
+        }
+    }
+    WriteRM(v);
+    flags = 0;
+    if (c) flags |= FC;
+    if (!v) flags |= FZ;
+    if (v & 0x8000) flags |= FS;
+    if ((v ^ old) & 0x8000) flags |= FO;
+}
+
 void ReadAsciiz(char* dest, int sr, int off)
 {
     int ch;
@@ -1054,65 +1087,10 @@ int main(int argc, char** argv)
                 INT();
                 break;
             case 0xD1:
-                {
-                    ModRM();
-                    const unsigned v = ReadRM();
-                    unsigned res, c;
-                    switch (modrm>>3&7) {
-                    case 4: // SHL R/M16, 1
-                        if (verbose) sprintf(insttext, "SHL %s, 1", rmtext);
-                        res = v << 1;
-                        c = v & 0x8000;
-                        break;
-                    case 5: // SHR R/M16, 1
-                        if (verbose) sprintf(insttext, "SHR %s, 1", rmtext);
-                        res = v>>1;
-                        c = v&1;
-                        break;
-                    case 7: // SAR R/M16, 1
-                        if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
-                        c = v&1;
-                        break;
-                    default:
-                        Fatal("TODO: D1/%d", modrm>>3&7);
-                    }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
-                }
+                DoShift("1", 1);
                 break;
             case 0xD3:
-                {
-                    ModRM();
-                    const unsigned v = ReadRM();
-                    const unsigned a = reg[R_CX]&15;
-                    unsigned res, c=0;
-                    switch (modrm>>3&7) {
-                    case 4: // SHL R/M16, CL
-                        if (verbose) sprintf(insttext, "SHL %s, CL", rmtext);
-                        res = v << a;
-                        if (a) c = (v << (a-1)) & 0x8000;
-                        break;
-                    case 5: // SHR R/M16, CL
-                        if (verbose) sprintf(insttext, "SHR %s, CL", rmtext);
-                        res = v >> a;
-                        if (a) c = (v >> (a-1)) & 1;
-                        break;
-                    case 7: // SAR R/M16, CL
-                        if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
-                        if (a) c = (v >> (a-1)) & 1;
-                        break;
-                    default:
-                        Fatal("TODO: D3/%d", modrm>>3&7);
-                    }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
-                }
+                DoShift("CL", reg[R_CX]&0xff);
                 break;
             case 0xE8:
                 {
-- 
2.43.0


From 2512c8926e6c1e55e2f5b61f0a668e9fcd6a9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 05/93] fix: sim86: NEG sets flags, MUL and IMUL deliver the
 high word and carry on the host

---
 sim86.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index 672c570..e10dc55 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1113,7 +1113,6 @@ int main(int argc, char** argv)
             case 0xF7:
                 {
                     ModRM();
-                    // TODO: Flags
                     switch (modrm>>3&7) {
                     case 2: // NOT r/m16
                         if (verbose) sprintf(insttext, "NOT %s", rmtext);
@@ -1121,15 +1120,29 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
-                    case 4: // MUL (TODO: Full 32-bit result)
-                    case 5: // IMUL (TODO: Full 32-bit result)
+                    case 4: // MUL (TODO: Full 32-bit result with SCC)
+                    case 5: // IMUL (TODO: Full 32-bit result with SCC)
                         {
                             if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
                             const unsigned int m = ReadRM();
-                            reg[R_AX] = TRIM(reg[R_AX] * m);
+#ifdef __SCC__
+                            reg[R_AX] = reg[R_AX] * m;
                             reg[R_DX] = 0;
+#else
+                            unsigned res, ext;
+                            if (modrm & 8) {
+                                res = SEXT(reg[R_AX]) * SEXT(m);
+                                ext = res & 0x8000 ? 0xffff : 0;
+                            } else {
+                                res = reg[R_AX] * m;
+                                ext = 0;
+                            }
+                            reg[R_AX] = TRIM(res);
+                            reg[R_DX] = res >> 16;
+                            flags = reg[R_DX] != (int)ext ? FC|FO : 0;
+#endif
                         }
                         break;
                     case 6: // DIV (TODO: Full 32-bit divide)
-- 
2.43.0


From 1cc68619f064feb9a5133269f0f0db562cc76cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 06/93] fix: sim86: REPE CMPSB and REPNE SCASB compare bytes
 and keep the flags when CX is 0

---
 sim86.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index e10dc55..841a1d5 100644
--- a/sim86.c
+++ b/sim86.c
@@ -990,12 +990,14 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
-                    flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] = TRIM(reg[R_DI] + 1);
                         reg[R_SI] = TRIM(reg[R_SI] + 1);
+                        if (!(flags & FZ))
+                            break;
                     }
                 }
                 break;
@@ -1054,11 +1056,13 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
-                        DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
+                    dsize = 0;
+                    while (reg[R_CX]) {
+                        DoOp(OP_CMP, reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] = TRIM(reg[R_DI] + 1);
+                        if (flags & FZ)
+                            break;
                     }
                 }
                 break;
-- 
2.43.0


From 2f985014e91f3ffff3761683a86dcd40ae94965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 07/93] fix: sim86: honour segment overrides for MOV
 accumulator and string instructions

---
 sim86.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sim86.c b/sim86.c
index 841a1d5..a971efb 100644
--- a/sim86.c
+++ b/sim86.c
@@ -386,6 +386,12 @@ void DoOp(int op, unsigned l, unsigned r)
         WriteRM(res);
 }
 
+// Segment of memory operands without a ModRM byte
+int SrcSeg(void)
+{
+    return seg == -1 ? SR_DS : seg;
+}
+
 void ALUOp(int op, int swap)
 {
     ModRM();
@@ -949,15 +955,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(SrcSeg(), Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(SrcSeg(), Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(SrcSeg(), Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SrcSeg(), Off);
                         }
                     }
                 }
@@ -967,7 +973,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
                     while (reg[R_CX]) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                        Write8(SR_ES, reg[R_DI], Read8(SrcSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] = TRIM(reg[R_DI] + 1);
                         reg[R_SI] = TRIM(reg[R_SI] + 1);
@@ -979,7 +985,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
                     while (reg[R_CX]) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                        Write16(SR_ES, reg[R_DI], Read16(SrcSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] = TRIM(reg[R_DI] + 2);
                         reg[R_SI] = TRIM(reg[R_SI] + 2);
@@ -992,7 +998,7 @@ int main(int argc, char** argv)
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     dsize = 0;
                     while (reg[R_CX]) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                        DoOp(OP_CMP, Read8(SrcSeg(), reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] = TRIM(reg[R_DI] + 1);
                         reg[R_SI] = TRIM(reg[R_SI] + 1);
@@ -1040,7 +1046,7 @@ int main(int argc, char** argv)
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(SrcSeg(), reg[R_SI]));
                     reg[R_SI] = TRIM(reg[R_SI] + 1);
                 }
                 break;
@@ -1048,7 +1054,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read16(SrcSeg(), reg[R_SI]));
                     reg[R_SI] = TRIM(reg[R_SI] + 2);
                 }
                 break;
-- 
2.43.0


From 36e034d06e4761fba11d5b680c80d7d441411e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 08/93] fix: sim86: reading at end of file or writing nothing
 is not an error

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index a971efb..281bf83 100644
--- a/sim86.c
+++ b/sim86.c
@@ -698,7 +698,7 @@ void INT(void)
         flags &= ~FC;
     } else if (func == 0x3F) {
         int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
             r = 0;
         } else {
@@ -707,7 +707,7 @@ void INT(void)
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
             r = 0;
         } else {
-- 
2.43.0


From 0c1a5a355b679aa1f6d702bf5ced0e849cb5e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 09/93] fix: sim86: guest file names and transfers stay within
 the simulator's buffers

---
 sim86.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index 281bf83..1b32766 100644
--- a/sim86.c
+++ b/sim86.c
@@ -60,7 +60,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[20];
 char insttext[64];
 const char* filename;
 
@@ -422,6 +422,15 @@ void MOV(int swap)
     }
 }
 
+#ifndef __SCC__
+// Don't transfer past the end of memory
+int ClipSize(int off, int size)
+{
+    const int max = (int)sizeof(mem) - MAKEADDR(SR_DS, off);
+    return size < max ? size : max;
+}
+#endif
+
 int ReadToMem(int fd, int off, int size)
 {
 #ifdef __SCC__
@@ -432,7 +441,7 @@ int ReadToMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return read(fd, mem+MAKEADDR(SR_DS, off), size);
+    return read(fd, mem+MAKEADDR(SR_DS, off), ClipSize(off, size));
 #endif
 }
 
@@ -446,7 +455,7 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return write(fd, mem+MAKEADDR(SR_DS, off), size);
+    return write(fd, mem+MAKEADDR(SR_DS, off), ClipSize(off, size));
 #endif
 }
 
@@ -578,10 +587,12 @@ void DoShift(const char* count, int n)
     if ((v ^ old) & 0x8000) flags |= FO;
 }
 
-void ReadAsciiz(char* dest, int sr, int off)
+void ReadAsciiz(char* dest, int size, int sr, int off)
 {
     int ch;
     do {
+        if (!size--)
+            Fatal("File name too long");
         ch = Read8(sr, off++);
         *dest++ = (char)ch;
     } while (ch); 
@@ -590,7 +601,7 @@ void ReadAsciiz(char* dest, int sr, int off)
 void HandleOpen(int oflags)
 {
     char fname[64];
-    ReadAsciiz(fname, SR_DS, reg[R_DX]);
+    ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX]);
     int fd = open(fname, O_BINARY | oflags, 0600);
     if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
-- 
2.43.0


From bae1b19a9b59e8071dc28d27d7b7a538f8fb3814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 10/93] fix: sim86: build the command tail as DOS does and
 reject too long ones

---
 sim86.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index 1b32766..602c05a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -794,11 +794,13 @@ int main(int argc, char** argv)
     int p = 0;
     int i;
     for (i = argi + 1; argv[i]; ++i) {
-        if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
+        Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
-        while (*s) Write8(SR_DS, 0x81+(p++), *s++);
+        while (*s && p < 126) Write8(SR_DS, 0x81+(p++), *s++);
+        if (*s || p == 126)
+            Fatal("Command line too long");
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From 5dd2419179462248753f3ab4a1809028c5f441f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 11/93] fix: sim86: a segment override doesn't turn word
 instructions into byte ones

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index 602c05a..4607ff6 100644
--- a/sim86.c
+++ b/sim86.c
@@ -866,6 +866,7 @@ int main(int argc, char** argv)
                 } else {
                     assert(!(inst&1));
                     seg = (inst-0x26)>>3;
+                    dsize = 1;
                     goto Restart;
                 }
             } else {
-- 
2.43.0


From d307858b58570fbd497d83ff0e17b11cdc2de8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 12/93] fix: scc: multiplying by a constant zero gives zero

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 9f267b3..2253e69 100644
--- a/scc.c
+++ b/scc.c
@@ -1273,7 +1273,9 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale) {
+        Output2Bytes(I_XOR|1, MODRM_REG); // XOR AX, AX
+    } else if (Scale & (Scale-1)) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From 92268db625d66395476f21a07542228633795086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 13/93] fix: scc: signed division by a power of two and pointer
 difference round towards zero

---
 scc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 2253e69..466a0fc 100644
--- a/scc.c
+++ b/scc.c
@@ -1297,13 +1297,13 @@ void EmitDivCX(void)
 
 void EmitDivAxConst(int Amm)
 {
-    if (Amm & (Amm-1)) {
+    // Shifting only rounds towards zero if unsigned
+    if ((Amm & (Amm-1)) || (!IsUnsignedOp && Amm != 1)) {
         EmitMovRImm(R_CX, Amm);
         EmitDivCX();
     } else {
-        const int ModRM = IsUnsignedOp ? MODRM_REG|SHROT_SHR<<3 : MODRM_REG|SHROT_SAR<<3;
         while (Amm /= 2) {
-            Output2Bytes(0xD1, ModRM);
+            Output2Bytes(0xD1, MODRM_REG|SHROT_SHR<<3);
         }
     }
 }
@@ -2626,6 +2626,7 @@ DoNormal:
         }
 BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
+            IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-- 
2.43.0


From e1be6e6113464834bebc60e0038ac9a7796c1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 14/93] fix: scc: the result of an operation on int and
 unsigned is unsigned, a shift has the type of its left operand

---
 scc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 466a0fc..a7b3d8d 100644
--- a/scc.c
+++ b/scc.c
@@ -2486,7 +2486,8 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
 
-        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        // For shifts only the type of the left operand matters
+        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (Op != TOK_LSH && Op != TOK_RSH && (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT));
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2625,6 +2626,11 @@ DoNormal:
             DoBinOp(Op, R);
         }
 BinOpOut:
+        if ((CurrentType&~VT_UNSIGNED) == VT_INT) {
+            CurrentType = VT_INT;
+            if (IsUnsignedOp && !LhsPointeeSize)
+                CurrentType = VT_INT|VT_UNSIGNED;
+        }
         if (Op == '-' && LhsPointeeSize) {
             IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
-- 
2.43.0


From f911608d94734354a11f27f387dac232ba612c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 15/93] fix: scc: the value of an assignment has the type and
 value of the left operand

---
 scc.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/scc.c b/scc.c
index a7b3d8d..8b5d1e6 100644
--- a/scc.c
+++ b/scc.c
@@ -2548,20 +2548,32 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
-            } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
+            } else if (CurrentType == (VT_INT|VT_LOCLIT) && LhsLoc) {
                 // Constant assignment
-                if (!LhsLoc) {
-                    GetVal();
-                    Output1Byte(I_STOSB-1+Size);
-                } else {
-                    EmitStoreConst(Size, LhsLoc, LhsVal);
-                }
-                continue;
+                EmitStoreConst(Size, LhsLoc, LhsVal);
+                if (LhsType == VT_INT)
+                    continue;
+                goto Reload;
             } else {
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+            if (LhsType & VT_FUNPTR)
+                continue;
+            // The value has the type of the left operand
+            if (Size == 1) {
+                if (LhsLoc) {
+                Reload:
+                    LhsType |= LhsLoc | VT_LVAL;
+                    CurrentVal = LhsVal;
+                } else {
+                    if (TokenType != ';')
+                        EmitExtend(LhsType&VT_UNSIGNED);
+                    LhsType = VT_INT;
+                }
+            }
+            CurrentType      = LhsType;
+            CurrentTypeExtra = LhsTypeExtra;
             continue;
         }
         int LhsPointeeSize = 0;
-- 
2.43.0


From 361d0f9be62a6933c665de86787af5a0a1ea5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 16/93] fix: scc: operands of ?: are converted to their common
 type

---
 scc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 8b5d1e6..3f65bf1 100644
--- a/scc.c
+++ b/scc.c
@@ -2316,6 +2316,10 @@ void ForceToReg(void)
     if ((CurrentType & VT_BASEMASK) == VT_ARRAY)
         LvalToRval();
 
+    // A condition code doesn't survive
+    if (CurrentType == VT_BOOL)
+        GetVal();
+
     const int Loc = CurrentType & VT_LOCMASK;
     if (!Loc) return;
     if (Loc == VT_LOCGLOB || Loc == VT_LOCOFF) {
@@ -2371,14 +2375,18 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
+        TypeDiff = CurrentType;
         EmitJmp(RealEnd);
         EmitLocalLabel(EndLabel);
         CurrentType = LhsType;
         LvalToRval();
         EmitLocalLabel(RealEnd);
+        // Prefer pointer and unsigned types
+        if (CurrentType == VT_INT)
+            CurrentType = TypeDiff;
     } else {
         EmitLocalLabel(EndLabel);
     }
-- 
2.43.0


From f70a19dc9c22db94cc5678c0efc47a366ae9dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 17/93] fix: scc: a returned value is converted to char

---
 scc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scc.c b/scc.c
index 3f65bf1..9499038 100644
--- a/scc.c
+++ b/scc.c
@@ -397,6 +397,7 @@ int LocalOffset;
 int BStackLevel;
 int CStackLevel;
 int ReturnLabel;
+int ReturnType;
 int BreakLabel;
 int ContinueLabel;
 
@@ -3091,6 +3092,8 @@ Redo:
         if (TokenType != ';') {
             ParseExpr();
             GetVal();
+            if ((ReturnType&~VT_UNSIGNED) == VT_CHAR)
+                EmitExtend(ReturnType&VT_UNSIGNED);
         }
         if (LocalOffset) {
             if (ReturnLabel < 0)
@@ -3340,6 +3343,7 @@ void ParseExternalDefition(void)
         if (LocalLabelCounter) Fail();
         LocalOffset = 0;
         ReturnLabel = -1;
+        ReturnType  = vd->Type & ~(VT_FUN|VT_LOCMASK);
         BreakLabel = ContinueLabel = -1;
 
         EmitGlobalLabel(vd);
-- 
2.43.0


From 38a7d9adfba14ebdd9a3642dfe44712c96a5c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 18/93] fix: scc: only reuse the zero flag when the last
 operation set it on every way here

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 9499038..753bc03 100644
--- a/scc.c
+++ b/scc.c
@@ -1141,6 +1141,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
+    LastZFInst = 0; // ZF may differ for the jumps to here
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -2172,6 +2173,8 @@ int GetSimpleALU(int Op)
 
 void FinishOp(int Inst)
 {
+    if (!(Inst & 0x80))
+        LastZFInst = CodeAddress; // Not for MUL and shifts
     if (Inst >>= 8) {
         CurrentType = VT_BOOL;
         CurrentVal  = Inst;
@@ -2657,7 +2660,6 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From e7df6ad63c943c309eb666d863a6ea2912c3e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 19/93] fix: scc: a comparison can be the operand of unary -, ~
 and +

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 753bc03..b9d976e 100644
--- a/scc.c
+++ b/scc.c
@@ -2034,8 +2034,10 @@ void ParseUnaryExpression(void)
             if ((CurrentType & VT_LOCMASK) == VT_LOCLIT) {
                 if (CurrentType != (VT_INT|VT_LOCLIT)) Fail();
                 IsConst = 1;
-            } else {
+            } else if (Op == '!') {
                 LvalToRval();
+            } else {
+                GetVal();
             }
             if (Op == '-') {
                 if (IsConst) {
-- 
2.43.0


From 0e71c53aa2fc6b208f596d43fd1fa9475ecbe26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 20/93] fix: scc: a char assigned through a pointer is
 converted before its value is used

---
 scc.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/scc.c b/scc.c
index b9d976e..59191f7 100644
--- a/scc.c
+++ b/scc.c
@@ -1544,10 +1544,10 @@ LoadAddrRet:
             Output2Bytes(I_XCHG_AX|R_SI, I_LODSB|sz);
         else
             EmitLoadAx(sz+1, loc, CurrentVal);
-        if (!sz) {
-            EmitExtend(CurrentType&VT_UNSIGNED);
-            CurrentType = VT_INT;
-        }
+    }
+    if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+        EmitExtend(CurrentType&VT_UNSIGNED);
+        CurrentType = VT_INT;
     }
 }
 
@@ -2575,16 +2575,10 @@ void ParseExpr1(int OuterPrecedence)
             if (LhsType & VT_FUNPTR)
                 continue;
             // The value has the type of the left operand
-            if (Size == 1) {
-                if (LhsLoc) {
-                Reload:
-                    LhsType |= LhsLoc | VT_LVAL;
-                    CurrentVal = LhsVal;
-                } else {
-                    if (TokenType != ';')
-                        EmitExtend(LhsType&VT_UNSIGNED);
-                    LhsType = VT_INT;
-                }
+            if (Size == 1 && LhsLoc) {
+            Reload:
+                LhsType |= LhsLoc | VT_LVAL;
+                CurrentVal = LhsVal;
             }
             CurrentType      = LhsType;
             CurrentTypeExtra = LhsTypeExtra;
-- 
2.43.0


From 76e91227bbfdac54db460af9b79e70c69557cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 21/93] fix: scc: ++ and -- through a computed address keep the
 address, pointer steps can be over 127 bytes

---
 scc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 59191f7..9c741a5 100644
--- a/scc.c
+++ b/scc.c
@@ -1579,11 +1579,13 @@ void DoIncDecOp(int Op, int Post)
     Op = Op == TOK_MINUSMINUS;
 
     if (Size > 1) {
-        EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
-        Output1Byte(Size);
-        return;
+        EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
+        OutputWord(Size);
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
+    if (!(Loc|Post))
+        Output1Byte(I_XCHG_AX|R_SI); // The address is still needed
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From 3d5301c73e16c9dad5be6a274ee433abb4f19fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 22/93] fix: scc: compound assignment scales what is added to a
 pointer and accepts a comparison

---
 scc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 9c741a5..13e465b 100644
--- a/scc.c
+++ b/scc.c
@@ -2533,6 +2533,15 @@ void ParseExpr1(int OuterPrecedence)
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
+                if (!Temp)
+                    GetVal();
+                if (LhsType & VT_PTRMASK) {
+                    const int Scale = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (Temp)
+                        CurrentVal *= Scale;
+                    else
+                        EmitScaleAx(Scale);
+                }
                 if (Size == 2) {
                     int Inst = GetSimpleALU(Op);
                     if (Inst) {
@@ -2540,14 +2549,11 @@ void ParseExpr1(int OuterPrecedence)
                             EmitModrm(I_ALU_RM16_IMM16, Inst>>3, LhsLoc, LhsVal);
                             OutputWord(CurrentVal);
                         } else {
-                            GetVal();
                             EmitModrm(Inst, R_AX, LhsLoc, LhsVal);
                         }
                         if (!LhsLoc)
                             Output1Byte(I_XCHG_AX|R_DI);
-                        CurrentType = LhsType | LhsLoc | VT_LVAL;
-                        CurrentVal = LhsVal;
-                        continue;
+                        goto Reload;
                     }
                 }
                 if (!Temp) {
-- 
2.43.0


From 39ff7a297cac23e6dc5fc3b61edc36c61946382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 23/93] fix: scc: adding a pointer to an integer scales the
 integer

---
 scc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 13e465b..4ff1471 100644
--- a/scc.c
+++ b/scc.c
@@ -2618,6 +2618,8 @@ RhsConst:
                 GetVal();
                 if (Temp) {
                     CurrentVal = LhsVal;
+                    if (Op == '+' && (CurrentType & VT_PTRMASK))
+                        CurrentVal *= SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra);
                     goto RhsConst;
                 } else {
                     EmitMovRImm(R_CX, LhsVal);
@@ -2628,7 +2630,7 @@ RhsConst:
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
-                } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY) {
+                } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY && (Op != '+' || !(CurrentType & VT_PTRMASK))) {
                     if ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR) {
                         if (!(CurrentType&VT_LVAL)) Fail();
                         Pending &= ~PENDING_PUSHAX;
@@ -2646,6 +2648,12 @@ RhsConst:
                     Temp = 1;
                 } else {
                     R = GetStoredVal(-1);
+                    if (Op == '+' && (CurrentType & VT_PTRMASK) && !LhsPointeeSize) {
+                        // integer + pointer
+                        LhsVal = SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra);
+                        while (--LhsVal)
+                            DoBinOp(Op, R);
+                    }
                 }
             }
 DoNormal:
-- 
2.43.0


From 890f6fa5e57e5474bb97b941b29ec7c85b85936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 24/93] fix: scc: a value kept in BX is saved before a branch,
 not in one of the paths

---
 scc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scc.c b/scc.c
index 4ff1471..78a411d 100644
--- a/scc.c
+++ b/scc.c
@@ -1343,6 +1343,13 @@ void EmitJcc(int cc, int l)
     if (EmitChecks())
         return;
 
+    // Keep the same state on both paths
+    if (RegUse) {
+        Output1Byte(I_PUSH|R_BX);
+        LocalOffset -= 2;
+        RegUse = 0;
+    }
+
     int a = Labels[l].Addr;
     if (a) {
         a -= CodeAddress+2;
-- 
2.43.0


From 1734868fd739b1ee64f662653b18da6e10791bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 25/93] fix: scc: a constant operand of && or || has its value
 tested

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 78a411d..f51edf9 100644
--- a/scc.c
+++ b/scc.c
@@ -2002,7 +2002,7 @@ void ParseCastExpression(void);
 
 void ToBool(void)
 {
-    LvalToRval();
+    GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
-- 
2.43.0


From 6a4a45db79e93c09236094e5033ddf3426bb5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 26/93] fix: scc: do ... while with a true constant loops

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index f51edf9..c5fec1e 100644
--- a/scc.c
+++ b/scc.c
@@ -2308,7 +2308,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From dcbe08ca933e6cd956ad1ba26d8df56ddfefb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 27/93] fix: scc: an unevaluated expression leaves no trace in
 the code generator's state

---
 scc.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/scc.c b/scc.c
index c5fec1e..34401d5 100644
--- a/scc.c
+++ b/scc.c
@@ -1140,7 +1140,7 @@ void EmitLocalLabel(int l)
 {
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
-    IsDeadCode = 0;
+    IsDeadCode &= 2; // Labels in unevaluated expressions can't be reached
     LastZFInst = 0; // ZF may differ for the jumps to here
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
@@ -1781,6 +1781,27 @@ void GetVal(void)
 }
 
 void ParseAssignmentExpression(void);
+void ParseUnaryExpression(void);
+
+// Parse expression that isn't evaluated
+void ParseDead(int Unary)
+{
+    const int OldPending = Pending;
+    const int OldOffset  = LocalOffset;
+    const int OldRegUse  = RegUse;
+    const int WasDead    = IsDeadCode;
+    Pending    = 0;
+    IsDeadCode = 2;
+    if (Unary)
+        ParseUnaryExpression();
+    else
+        ParseAssignmentExpression();
+    Pending     = OldPending;
+    LocalOffset = OldOffset;
+    RegUse      = OldRegUse;
+    LastZFInst  = 0;
+    IsDeadCode  = WasDead;
+}
 
 int GetStoredVal(int Reg)
 {
@@ -2094,22 +2115,18 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
-            IsDeadCode = 1;
             if (TokenType == '(') {
                 GetToken();
                 if (IsTypeStart()) {
                     ParseAbstractDecl();
                     CurrentVal = SizeofCurrentType();
                 } else {
-                    ParseAssignmentExpression();
+                    ParseDead(0);
                 }
                 Expect(')');
             } else {
-                ParseUnaryExpression();
+                ParseDead(1);
             }
-            if (!IsDeadCode) Fail();
-            IsDeadCode = WasDead;
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2353,11 +2370,7 @@ void ParseMaybeDead(int Live)
         const int OldType  = CurrentType;
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
-        const int WasDead  = IsDeadCode;
-        IsDeadCode = 1;
-        ParseAssignmentExpression();
-        if (!IsDeadCode) Fail();
-        IsDeadCode       = WasDead;
+        ParseDead(0);
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
-- 
2.43.0


From c9b28862bc904f9909df425b56cbd28ee6d13a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 28/93] fix: scc: parameters of a function pointer parameter
 don't replace those of the function

---
 scc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 34401d5..f2b1d49 100644
--- a/scc.c
+++ b/scc.c
@@ -389,7 +389,7 @@ int LocalLabelCounter;
 struct NamedLabel NamedLabels[NAMED_LABEL_MAX];
 int NamedLabelCount;
 
-struct Argument Args[ARGS_MAX];
+struct Argument Args[ARGS_MAX+1]; // Last one is for parameters of function pointers
 int ArgsCount;
 
 int LocalOffset;
@@ -2910,7 +2910,8 @@ Redo:
         const int T = CurrentType | VT_FUN;
         const int E = CurrentTypeExtra;
 
-        ArgsCount = 0;
+        if (!IsFunPtr)
+            ArgsCount = 0;
         while (TokenType != ')') {
             if (TokenType == TOK_ELLIPSIS) {
                 GetToken();
@@ -2919,8 +2920,11 @@ Redo:
             ParseDeclSpecs();
             if (TokenType == ')')
                 break;
-            if (ArgsCount == ARGS_MAX) Fail();
-            struct Argument* A = &Args[ArgsCount++];
+            struct Argument* A = &Args[ARGS_MAX];
+            if (!IsFunPtr) {
+                if (ArgsCount == ARGS_MAX) Fail();
+                A = &Args[ArgsCount++];
+            }
             ParseDeclarator(&A->Id);
             A->Type      = CurrentType;
             A->TypeExtra = CurrentTypeExtra;
-- 
2.43.0


From 46bf7fe89788adc3d199a140b263be9578b56b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 29/93] fix: scc: a call through a pointer saves pending values
 below the pointer

---
 scc.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/scc.c b/scc.c
index f2b1d49..1e7a59e 100644
--- a/scc.c
+++ b/scc.c
@@ -1841,19 +1841,6 @@ void ParsePostfixExpression(void)
                 const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
                 int RetExtra = CurrentTypeExtra;
                 struct VarDecl* Func = 0;
-                switch (CurrentType & VT_LOCMASK) {
-                case VT_LOCGLOB:
-                    Func = &VarDecls[CurrentVal];
-                    RetExtra = Func->TypeExtra;
-                    break;
-                case 0:
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
-                default:
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
-                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
-                    LocalOffset -= 2;
-                }
 
                 int RU = RegUse;
                 if (Pending & PENDING_PUSHAX) {
@@ -1872,6 +1859,20 @@ void ParsePostfixExpression(void)
                     RegUse = 0;
                 }
 
+                switch (CurrentType & VT_LOCMASK) {
+                case VT_LOCGLOB:
+                    Func = &VarDecls[CurrentVal];
+                    RetExtra = Func->TypeExtra;
+                    break;
+                case 0:
+                    Output1Byte(I_XCHG_AX|R_SI);
+                    // Fall through
+                default:
+                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
+                    LocalOffset -= 2;
+                }
+
                 int ArgSize = 0;
                 enum { ArgChunkSize = 8 }; // Must be power of 2
                 while (TokenType != ')') {
-- 
2.43.0


From cf9078e088d01d1eea07f20e90fd2a5b537bb8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 30/93] fix: scc: function pointers can be copied and chosen by
 ?:

---
 scc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 1e7a59e..f605a9f 100644
--- a/scc.c
+++ b/scc.c
@@ -1543,7 +1543,7 @@ LoadAddrRet:
             return;
         }
 
-        if (CurrentType & VT_FUNPTR)
+        if ((CurrentType & VT_FUNPTR) == VT_FUN)
             goto LoadAddrRet;
 
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
@@ -1865,10 +1865,13 @@ void ParsePostfixExpression(void)
                     RetExtra = Func->TypeExtra;
                     break;
                 case 0:
+                    if (!(CurrentType & VT_LVAL))
+                        goto PushFunc;
                     Output1Byte(I_XCHG_AX|R_SI);
                     // Fall through
                 default:
                     EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                PushFunc:
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
                 }
@@ -2345,8 +2348,8 @@ void DoCond(int Label, int Forward) // forward => jump if label is false
 
 void ForceToReg(void)
 {
-    // Always decay arrays
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY)
+    // Always decay arrays and functions
+    if ((CurrentType & VT_BASEMASK) == VT_ARRAY || (CurrentType & VT_FUNPTR) == VT_FUN)
         LvalToRval();
 
     // A condition code doesn't survive
-- 
2.43.0


From 82b17a2d3459147ab2385fc13ea22db0db50ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 31/93] fix: scc: a case label after declarations in its switch
 sets the stack pointer

---
 scc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scc.c b/scc.c
index f605a9f..53bac06 100644
--- a/scc.c
+++ b/scc.c
@@ -396,6 +396,7 @@ int LocalOffset;
 // Break/Continue stack level (== LocalOffset of block)
 int BStackLevel;
 int CStackLevel;
+int SStackLevel; // LocalOffset at the start of the current switch
 int ReturnLabel;
 int ReturnType;
 int BreakLabel;
@@ -3117,6 +3118,8 @@ Redo:
             EmitJmp(NextSwitchCase);
         Stmt:
             EmitLocalLabel(NextSwitchStmt);
+            if (LocalOffset != SStackLevel) // Declaration(s) skipped on the way here
+                EmitModrm(I_LEA, R_SP, VT_LOCOFF, LocalOffset);
             NextSwitchStmt = -1;
             goto Redo;
         }
@@ -3269,10 +3272,12 @@ Redo:
 
             const int OldBreakLevel  = BStackLevel;
             const int OldBreakLabel  = BreakLabel;
+            const int OldSwitchLevel = SStackLevel;
             const int LastSwitchCase = NextSwitchCase;
             const int LastSwitchStmt = NextSwitchStmt;
             const int LastSwitchDef  = SwitchDefault;
             BStackLevel    = LocalOffset;
+            SStackLevel    = LocalOffset;
             BreakLabel     = MakeLabel();
             NextSwitchCase = MakeLabel();
             NextSwitchStmt = MakeLabel();
@@ -3297,6 +3302,7 @@ Redo:
             NextSwitchStmt = LastSwitchStmt;
             SwitchDefault  = LastSwitchDef;
             BStackLevel    = OldBreakLevel;
+            SStackLevel    = OldSwitchLevel;
             BreakLabel     = OldBreakLabel;
         }
         return;
-- 
2.43.0


From ddb0ffa4b1b5efb1ed78790ba9e173095615d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 32/93] fix: sim86: CALL reads its operand before pushing the
 return address

---
 sim86.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 4607ff6..9de527e 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1208,8 +1208,11 @@ int main(int argc, char** argv)
                         break;
                     case 2:
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
-                        DoPush(ip);
-                        ip = ReadRM();
+                        {
+                            const int target = ReadRM(); // Before pushing, it may be on the stack
+                            DoPush(ip);
+                            ip = target;
+                        }
                         break;
                     default:
                         Fatal("TODO: %02X/%X", inst, modrm>>3&7);
-- 
2.43.0


From 03bc7ce81c400f955169b6bc5b4b47c90a2f9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 33/93] fix: scc: a comparison can be an array index

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 53bac06..6050db5 100644
--- a/scc.c
+++ b/scc.c
@@ -1961,7 +1961,7 @@ void ParsePostfixExpression(void)
                         }
                         EmitAddRegConst(R_AX, CurrentVal * Scale);
                     } else {
-                        LvalToRval();
+                        GetVal();
                         if ((CurrentType&~VT_UNSIGNED) != VT_INT || (Pending & PENDING_PUSHAX)) Fail();
                         EmitScaleAx(Scale);
                         if (GlobalArr) {
-- 
2.43.0


From a5795354b5e06aad381621cedccb132ba5cc851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 34/93] fix: scc: an integer can be subtracted from a pointer

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 6050db5..cad7b23 100644
--- a/scc.c
+++ b/scc.c
@@ -2618,10 +2618,12 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
         int LhsPointeeSize = 0;
+        int PtrDiff = 0;
         if (LhsType & VT_PTRMASK) {
             LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
+            PtrDiff = Op == '-' && (CurrentType & VT_PTRMASK);
             CurrentTypeExtra = LhsTypeExtra;
             IsUnsignedOp = 1;
         }
@@ -2651,7 +2653,7 @@ RhsConst:
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
-                if (Op == '+' && LhsPointeeSize) {
+                if (LhsPointeeSize && (Op == '+' || (Op == '-' && !PtrDiff))) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
@@ -2692,7 +2694,7 @@ BinOpOut:
             if (IsUnsignedOp && !LhsPointeeSize)
                 CurrentType = VT_INT|VT_UNSIGNED;
         }
-        if (Op == '-' && LhsPointeeSize) {
+        if (PtrDiff) {
             IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
-- 
2.43.0


From 3c71f0e8d8ce6d7c4eda57158310b2ecca3a219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 35/93] fix: scc: the size of a static local array outlives its
 function, unused and repeated objects are fine

---
 scc.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/scc.c b/scc.c
index cad7b23..c375763 100644
--- a/scc.c
+++ b/scc.c
@@ -343,7 +343,6 @@ struct Argument {
 };
 
 int CodeAddress = CODESTART;
-int BssSize;
 
 int MapFile;
 
@@ -1648,9 +1647,9 @@ void PopScope(void)
         if (vd->Id < 0)
             continue;
         if (vd->Ref) {
-            // Move static variable for real to global scope
-            CurrentType = vd->Type;
-            CurrentTypeExtra = vd->TypeExtra;
+            // Move static variable for real to global scope, only its size is needed from now on
+            CurrentType = VT_CHAR|VT_LOCGLOB;
+            CurrentTypeExtra = SizeofType(vd->Type, vd->TypeExtra);
             AddLateGlobalVar(-2)->Ref = vd->Ref;
         }
         VarLookup[vd->Id] = vd->Prev;
@@ -3318,7 +3317,6 @@ Skip:
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-                BssSize += size;
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
@@ -3439,8 +3437,6 @@ void ParseExternalDefition(void)
             default:
                 Fail();
             }
-        } else {
-            BssSize += SizeofCurrentType();
         }
         vd = NextDecl();
     }
@@ -3539,9 +3535,8 @@ int main(int argc, char** argv)
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-        CodeAddress += SizeofType(CurrentType, vd->TypeExtra);
+        CodeAddress += vd->Id == -2 ? vd->TypeExtra : SizeofType(CurrentType, vd->TypeExtra);
     }
-    if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
 
     close(MapFile);
@@ -3551,7 +3546,7 @@ int main(int argc, char** argv)
     else
         MakeOutputFilename(argv[1], ".com");
     const int OutFile = OpenOutput();
-    write(OutFile, Output, CodeAddress - BssSize - CODESTART);
+    write(OutFile, Output, SBSS->Offset - CODESTART);
     close(OutFile);
 
     return 0;
-- 
2.43.0


From 2cab17572abbd834d1f908f0f99b143737ff07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 36/93] fix: scpp: > in an #if compared the wrong way

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..3b301be 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1318,7 +1318,7 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
-- 
2.43.0


From 606fad8db95cfc71ec1f137ed99648739bdf9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 37/93] fix: scpp: operators of equal precedence associate to
 the left

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 3b301be..b4f0104 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1307,7 +1307,7 @@ int EvalExpr1(int LHS, int OuterPrec)
             if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
                 break;
             const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
-- 
2.43.0


From 0075da34f7c001fd7698ff6002a1a6568de71e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 38/93] fix: scpp: integer constants may have an L suffix,
 invalid digits are diagnosed

---
 scpp.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index b4f0104..2aacf47 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1218,11 +1218,15 @@ int EvalUnary(void)
         }
         int ch;
         while ((ch = *s++)) {
-            n *= base;
             if (ch >= '0' && ch <= '9')
-                n += ch - '0';
-            else {
-                n += (ch & 0xdf) - ('A' - 10);
+                ch -= '0';
+            else
+                ch = (ch & 0xdf) - ('A' - 10);
+            if (ch < base) {
+                n = n * base + ch;
+            } else {
+                assert(ch == 'L' - ('A' - 10));
+                base = 0; // Nothing but L's may follow
             }
         }
         GetToken();
-- 
2.43.0


From 585baa560ce4267a4a4a95acb001c332bb742fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 39/93] fix: scpp: operands of &&, || and ?: that aren't
 evaluated can divide by zero, others are diagnosed

---
 scpp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scpp.c b/scpp.c
index 2aacf47..891f28f 100644
--- a/scpp.c
+++ b/scpp.c
@@ -427,6 +427,7 @@ enum {
 };
 char CondState[COND_MAX];
 int CondCount;
+int SkipEval; // In an operand that isn't evaluated
 
 enum { Debug = 0 };
 
@@ -1298,12 +1299,18 @@ int EvalExpr1(int LHS, int OuterPrec)
             break;
         GetToken();
         if (Op == '?') {
+            SkipEval += !LHS;
             const int L = EvalExpr1(EvalUnary(), 14);
+            SkipEval -= !LHS;
             Expect(':');
+            SkipEval += !!LHS;
             const int R = EvalExpr1(EvalUnary(), 14);
+            SkipEval -= !!LHS;
             LHS = LHS ? L : R;
             continue;
         }
+        const int Skip = (Op == TOK_ANDAND && !LHS) || (Op == TOK_OROR && LHS);
+        SkipEval += Skip;
         int RHS = EvalUnary();
         for (;;) {
             SkipWS();
@@ -1315,6 +1322,11 @@ int EvalExpr1(int LHS, int OuterPrec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
+        SkipEval -= Skip;
+        if ((Op == '/' || Op == '%') && !RHS) {
+            assert(SkipEval);
+            RHS = 1;
+        }
         switch (Op) {
         case '*': LHS *= RHS; break;
         case '/': LHS /= RHS; break;
-- 
2.43.0


From 288c032d4e63f28dfab14d29321d98f2636458cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 40/93] fix: scpp: #if in a skipped group isn't evaluated

---
 scpp.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scpp.c b/scpp.c
index 891f28f..6f5dce9 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1452,17 +1452,23 @@ void HandleDirective(void)
             assert(0);
         }
     } else {
-        GetToken();
-
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
+            int Active = 0;
+            if (CondActive()) {
+                GetToken();
+                Active = EvalExpr();
+            }
+            NewCond(Active);
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
                 *S = COND_DONE;
-            else if (*S == COND_FALSE && EvalExpr())
-                *S = COND_TRUE;
+            else if (*S == COND_FALSE) {
+                GetToken();
+                if (EvalExpr())
+                    *S = COND_TRUE;
+            }
         } else if (Directive == TOK_ELSE) {
             assert(S);
             if (*S == COND_TRUE)
-- 
2.43.0


From 5125f08ee3af7474f7cc24d87da01c02ce8c2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 41/93] fix: scpp: #else and #elif after #else and a missing
 #endif are diagnosed

---
 scpp.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 6f5dce9..a5c960d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -357,6 +357,7 @@ struct File {
     char* BufPtr;
     int BufSize;
     int OldLine;
+    int OldCond;
     char LastChar;
     char Buf[FILE_BUF_SIZE];
 };
@@ -426,6 +427,7 @@ enum {
     COND_DONE,        // Done, waiting for #endif
 };
 char CondState[COND_MAX];
+char CondElse[COND_MAX]; // Had #else
 int CondCount;
 int SkipEval; // In an operand that isn't evaluated
 
@@ -1371,6 +1373,7 @@ void NewCond(int Active)
     else if (Active)
         S = COND_TRUE;
     if (Debug) printf("New cond: %d\n", S);
+    CondElse[CondCount] = 0;
     CondState[CondCount++] = S;
 }
 
@@ -1400,6 +1403,7 @@ void HandleInclude(void)
     if (Debug) printf("Entering '%s' (%d)\n", Filename, NumFiles);
     CurFile = OpenFile(Filename, 0);
     CurFile->OldLine = Line;
+    CurFile->OldCond = CondCount;
     CurFileBuf = CurFile->Buf;
     Line = 1;
     ReadChar();
@@ -1461,7 +1465,7 @@ void HandleDirective(void)
             }
             NewCond(Active);
         } else if (Directive == TOK_ELIF) {
-            assert(S);
+            assert(S && !CondElse[CondCount-1]);
             if (*S == COND_TRUE)
                 *S = COND_DONE;
             else if (*S == COND_FALSE) {
@@ -1470,13 +1474,14 @@ void HandleDirective(void)
                     *S = COND_TRUE;
             }
         } else if (Directive == TOK_ELSE) {
-            assert(S);
+            assert(S && !CondElse[CondCount-1]);
+            CondElse[CondCount-1] = 1;
             if (*S == COND_TRUE)
                 *S = COND_DONE;
             else if (*S == COND_FALSE)
                 *S = COND_TRUE;
         } else if (Directive == TOK_ENDIF) {
-            assert(CondCount);
+            assert(CondCount > CurFile->OldCond);
             --CondCount;
         } else {
             assert(Directive >= TOK_ID && Directive < TOK_ID+ID_MAX);
@@ -1526,6 +1531,10 @@ void PPMain(void)
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
+            if (CondCount != CurFile->OldCond) {
+                printf("Missing #endif in %s\n", CurFile->Filename);
+                exit(1);
+            }
             Line = CurFile->OldLine;
             CloseFile();
             CurFile = &Files[NumFiles-1];
-- 
2.43.0


From 440f275dc2233acd5c8ea44ce62a45208cc84c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 42/93] fix: scpp: only a # that starts a line starts a
 directive, skipped text isn't expanded

---
 scpp.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index a5c960d..4ceeb98 100644
--- a/scpp.c
+++ b/scpp.c
@@ -791,6 +791,8 @@ Identifier:
     case '~':
         break;
     default:
+        if (!CondActive())
+            break;
         printf("Unknown token type %c (%02X)\n", CurTok.Type, CurTok.Type);
         assert(0);
     }
@@ -1525,9 +1527,12 @@ void PPMain(void)
             if (!CurTok.Type)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
-            GetToken();
-            StartOfLine = 1;
             Active = CondActive();
+            if (Active)
+                GetToken();
+            else
+                RawGetToken();
+            StartOfLine = 1;
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
@@ -1549,13 +1554,18 @@ void PPMain(void)
         }
 
         if (!Active) {
-            GetToken();
+            if (CurTok.Type == TOK_NEWLINE)
+                StartOfLine = 1;
+            else if (CurTok.Type != TOK_WHITESPACE)
+                StartOfLine = 0;
+            RawGetToken();
             continue;
         }
 
         switch (CurTok.Type) {
         case TOK_WHITESPACE:
-            WS |= WS_NORMAL;
+            if (!StartOfLine)
+                WS |= WS_NORMAL;
             GetToken();
             continue;
         case TOK_NEWLINE:
@@ -1572,6 +1582,7 @@ void PPMain(void)
             }
             WS = 0;
         }
+        StartOfLine = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
         case TOK_CHARLIT:
-- 
2.43.0


From 3f03b65da28fb5e05959cf6c3f8c369cd46860f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 43/93] fix: scpp: a comment separates tokens, an unterminated
 one is diagnosed, // comments can be continued

---
 scpp.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scpp.c b/scpp.c
index 4ceeb98..d9de1cc 100644
--- a/scpp.c
+++ b/scpp.c
@@ -635,14 +635,12 @@ Restart:
     case '/':
         ReadChar();
         if (CurrentChar == '/') {
-            do {
-                while ((CurrentChar = *CurFileBuf++)) {
-                    if (CurrentChar == '\n')
-                        goto Restart;
-                }
-                --CurFileBuf;
+            int Splice = 0;
+            while (CurrentChar && (Splice || CurrentChar != '\n')) {
+                if (CurrentChar != '\r')
+                    Splice = CurrentChar == '\\';
                 ReadChar();
-            } while (CurrentChar && CurrentChar != '\n');
+            }
             goto Restart;
         } else if (CurrentChar == '*') {
             ReadChar();
@@ -651,8 +649,10 @@ Restart:
                 star = CurrentChar == '*';
                 ReadChar();
             }
+            assert(CurrentChar);
             ReadChar();
-            goto Restart;
+            CurTok.Type = TOK_WHITESPACE;
+            return;
         }
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
-- 
2.43.0


From 8294d106dd0e98d825535ac423bbee4111e9299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 44/93] fix: scpp: an unterminated literal outside skipped
 groups is diagnosed

---
 scpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scpp.c b/scpp.c
index d9de1cc..b86febb 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1593,6 +1593,9 @@ void PPMain(void)
                 OutputStr(S);
             }
             break;
+        case TOK_INVALID_LIT:
+            printf("Unterminated literal in %s:%d\n", CurFile->Filename, Line);
+            exit(1);
         default:
             OutputStr(CurTok.Text);
         }
-- 
2.43.0


From 754772c7032e3ba66b16a48547a95c73f7cb9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 45/93] fix: scpp: characters outside ASCII aren't white space

---
 scpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index b86febb..2c6c5c8 100644
--- a/scpp.c
+++ b/scpp.c
@@ -702,12 +702,12 @@ Restart:
         goto Identifier;
     }
 
-    if (CurrentChar <= ' ') {
+    if ((unsigned char)CurrentChar <= ' ') {
         CurTok.Type = TOK_WHITESPACE;
         ReadChar();
         if (!CurrentChar)
             return;
-        while (CurrentChar <= ' ' && CurrentChar != '\n') {
+        while ((unsigned char)CurrentChar <= ' ' && CurrentChar != '\n') {
             if ((CurrentChar = *CurFileBuf++))
                 continue;
             --CurFileBuf;
-- 
2.43.0


From ca7972b7c64742591b6c672ade1cb739c37e4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 46/93] fix: scpp: conditional directives stay within their
 file

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 2c6c5c8..c206052 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1458,7 +1458,7 @@ void HandleDirective(void)
             assert(0);
         }
     } else {
-        char* S = CondCount ? &CondState[CondCount-1] : 0;
+        char* S = CondCount > CurFile->OldCond ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
             int Active = 0;
             if (CondActive()) {
-- 
2.43.0


From ee1bc5bb947d65c14f2df7df47532f39a31dfb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 47/93] fix: scpp: long identifiers and numbers and many uses
 of __LINE__ stay within the token buffer

---
 scpp.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/scpp.c b/scpp.c
index c206052..171076d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -724,13 +724,8 @@ Restart:
             ReadToTokenData();
             if (CurrentChar == 'x' || CurrentChar == 'X')
                 ReadToTokenData();
-            while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1) {
-                TokenData[TokenDataPos++] = CurrentChar;
-                if ((CurrentChar = *CurFileBuf++))
-                    continue;
-                --CurFileBuf;
-                ReadChar();
-            }
+            while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1)
+                ReadToTokenData();
             goto Out;
         }
     } else if ((CurrentChar&0xDF) <= 'Z') {
@@ -738,11 +733,8 @@ Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
         do {
-            CurHash += (CurHash<<4)+(TokenData[TokenDataPos++] = CurrentChar);
-            if (!(CurrentChar = *CurFileBuf++)) {
-                --CurFileBuf;
-                ReadChar();
-            }
+            CurHash += (CurHash<<4)+CurrentChar;
+            ReadToTokenData();
         } while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1);
         CurHash &= ID_HASH_MAX-1;
         goto Out;
@@ -936,6 +928,7 @@ void GetToken(void)
                 if (Debug) printf("Special token! %s\n", CurTok.Text);
                 if (CurTok.Type == TOK___LINE__) {
                     char* T = &TokenData[NextTokenDataPos];
+                    assert(NextTokenDataPos + 12 < TOKEN_DATA_MAX);
                     sprintf(T, "%d", Line);
                     NextTokenDataPos += (int)strlen(T) + 1;
                     CurTok.Text = T;
@@ -1391,6 +1384,7 @@ void HandleInclude(void)
         while (CurrentChar != '>') {
             ReadToTokenData();
         }
+        assert(TokenDataPos < TOKEN_DATA_MAX);
         TokenData[TokenDataPos++] = 0;
         NextTokenDataPos = TokenDataPos;
     } else {
-- 
2.43.0


From bf1120d94e2bbcedcfd024c8cc899d24ce6e0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 48/93] fix: scpp: tokens after a macro name without arguments
 keep their order, only white space is doubled

---
 scpp.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scpp.c b/scpp.c
index 171076d..9a10db6 100644
--- a/scpp.c
+++ b/scpp.c
@@ -584,6 +584,12 @@ const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xF
 
 void RawGetToken(void)
 {
+    if (TokenQueueHead != TokenQueueTail) {
+        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
+        CurHash = ID_HASH_MAX;
+        return;
+    }
+
     while (ReplaceNest) {
         struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest-1];
         assert(!RS->M || RS->M->Hide == 1);
@@ -617,12 +623,6 @@ void RawGetToken(void)
         }
     }
 
-    if (TokenQueueHead != TokenQueueTail) {
-        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
-        CurHash = ID_HASH_MAX;
-        return;
-    }
-
 Restart:
     TokenDataPos = NextTokenDataPos;
     CurTok.Text = TokenData + TokenDataPos;
@@ -963,7 +963,7 @@ void GetToken(void)
             RawSkipWS();
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
-                if (WS < ' ') {
+                if (WS == TOK_WHITESPACE) {
                     struct Token WSToken;
                     WSToken.Type = WS;
                     TokenQueuePush(&WSToken);
-- 
2.43.0


From f9e2e867eba09d73f08b848b0666c5520b71242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 49/93] fix: scpp: the ( of a macro call can be on a later line

---
 scpp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index 9a10db6..23d053e 100644
--- a/scpp.c
+++ b/scpp.c
@@ -960,10 +960,14 @@ void GetToken(void)
         if (M->Arguments) {
             RawGetToken();
             int WS = CurTok.Type;
-            RawSkipWS();
+            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+                if (CurTok.Type == TOK_NEWLINE)
+                    WS = TOK_NEWLINE;
+                RawGetToken();
+            }
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
-                if (WS == TOK_WHITESPACE) {
+                if (WS == TOK_WHITESPACE || WS == TOK_NEWLINE) {
                     struct Token WSToken;
                     WSToken.Type = WS;
                     TokenQueuePush(&WSToken);
-- 
2.43.0


From 076d73ec3477721e6ca159b0863692dcad0f7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 50/93] fix: scpp: #undef forgets the parameters and releases
 the definition only once

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 23d053e..584d095 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1095,6 +1095,7 @@ void HandleDefine(void)
         }
         // Macro was previously #undef'ed
         M->Hide = 0;
+        M->Arguments = 0;
     } else {
         Id = AddId(CurTok.Text) + TOK_ID;
         NextTokenDataPos = TokenDataPos;
@@ -1434,6 +1435,7 @@ void HandleDirective(void)
                 // HACK: Just hide #undef'ed macros
                 Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
                 FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
+                Macros[CurTok.Type - TOK_USER_ID].Replacement = 0;
             }
             GetToken();
         }
-- 
2.43.0


From 5db1b299a17df0879685f0d4a1bd391bfd59fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 51/93] fix: scpp: an empty argument can be the left operand of
 ##

---
 scpp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 584d095..e6d167f 100644
--- a/scpp.c
+++ b/scpp.c
@@ -563,8 +563,13 @@ void PrintToken(const struct Token* T);
 
 void PasteAppend(struct Token* Tok)
 {
-    CurTok = *SimpleExpand(&CurTok);
+    struct Token* Left = SimpleExpand(&CurTok);
     Tok = SimpleExpand(Tok);
+    if (!Left) {
+        if (Tok) CurTok = *Tok;
+        return;
+    }
+    CurTok = *Left;
     if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
     const char* T2 = Tok ? Tok->Text : "";
     const int l1 = (int)strlen(CurTok.Text);
-- 
2.43.0


From 293c717c7747716a28e7193359a08dda9a1dd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 52/93] fix: scpp: a token formed by ## isn't taken for a
 parameter

---
 scpp.c | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/scpp.c b/scpp.c
index e6d167f..e22fb0c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -882,27 +882,6 @@ void PushHandleArg(struct Argument* A)
     ++ReplaceNest;
 }
 
-struct Argument* GetArg(int Id)
-{
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
-                }
-                return A;
-            }
-        }
-    }
-    return 0;
-}
-
 void GetToken(void)
 {
     for (;;) {
@@ -949,15 +928,7 @@ void GetToken(void)
             return;
         }
         const int Id = CurTok.Type;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
-            continue;
-        }
+        struct Argument* A;
         struct Macro* M = &Macros[Id - TOK_USER_ID];
         if (M->Hide)
             return;
-- 
2.43.0


From 54eba007cb1727b7eedd0c6c2da18c04ab77f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 53/93] fix: scpp: # is an operator only in function-like
 macros

---
 scpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index e22fb0c..600396c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -891,7 +891,7 @@ void GetToken(void)
         case TOK_RAW_ID:
             break;
         case '#':
-            if (!ReplaceNest)
+            if (!ReplaceNest || !ReplaceStack[ReplaceNest-1].M || !ReplaceStack[ReplaceNest-1].M->Arguments)
                 return;
             if (Debug) printf("Stringify!\n");
             RawGetToken();
@@ -1496,7 +1496,7 @@ void PPMain(void)
     for (;;) {
         switch (CurTok.Type) {
         case '#':
-            if (!StartOfLine)
+            if (!StartOfLine || ReplaceNest)
                 break;
             RawGetToken();
             HandleDirective();
-- 
2.43.0


From cb8f3e8369de6e4be71bd11dcd72b69779968cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 54/93] fix: scpp: text after an included file without final
 newline starts on a new line

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 600396c..3b216bb 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1524,6 +1524,8 @@ void PPMain(void)
             }
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
+            if (!StartOfLine)
+                WS = WS_NEWLINE;
             StartOfLine = 1;
             GetToken();
             continue;
-- 
2.43.0


From 11f98987663eb69ebd584c9fc0c8bbee498d7bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 55/93] fix: scpp: any identifier left in an #if is 0

---
 scpp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index 3b216bb..d6c043f 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1235,8 +1235,7 @@ int EvalUnary(void)
     }
 
     if (CurTok.Type >= TOK_USER_ID) {
-        // Undefined macro - evaluate as zero
-        assert(Macros[CurTok.Type - TOK_USER_ID].Hide == 2);
+        // Not a macro (any more) or one that isn't expanded here - evaluate as zero
         GetToken();
         return 0;
     }
-- 
2.43.0


From 44e08643b5c0dfc611fedb7919d72869e482ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 56/93] fix: scpp: tokens from different macros aren't joined
 in the output

---
 scpp.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/scpp.c b/scpp.c
index d6c043f..f4fd325 100644
--- a/scpp.c
+++ b/scpp.c
@@ -386,6 +386,7 @@ struct Token {
 };
 
 struct Token CurTok;
+int Boundary; // Started or finished a replacement before the current token
 unsigned CurHash;
 
 struct Token TokenQueue[TOKEN_QUEUE_MAX];
@@ -621,6 +622,7 @@ void RawGetToken(void)
             FreeArgs(RS->M->Arguments);
         }
         --ReplaceNest;
+        Boundary = 1;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
             CurTok.Type = TOK_EOF;
@@ -880,6 +882,7 @@ void PushHandleArg(struct Argument* A)
     ReplaceStack[ReplaceNest].TL = A->Replacement;
     ReplaceStack[ReplaceNest].Stop = 0;
     ++ReplaceNest;
+    Boundary = 1;
 }
 
 void GetToken(void)
@@ -927,6 +930,7 @@ void GetToken(void)
             }
             return;
         }
+        Boundary = 1;
         const int Id = CurTok.Type;
         struct Argument* A;
         struct Macro* M = &Macros[Id - TOK_USER_ID];
@@ -1483,6 +1487,17 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+// Could a token ending/starting with Ch be extended by another one of the same class? 1=Identifiers/numbers, 2=operators
+int JoinClass(char Ch)
+{
+    switch (Ch) {
+    case '+': case '-': case '*': case '/': case '%': case '&': case '|': case '^':
+    case '<': case '>': case '=': case '!': case '#':
+        return 2;
+    }
+    return (IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1;
+}
+
 void PPMain(void)
 {
     ReadChar();
@@ -1492,6 +1507,7 @@ void PPMain(void)
     int WS = WS_NONE;
     int StartOfLine = 1;
     int Active = 1;
+    int LastClass = 0;
     for (;;) {
         switch (CurTok.Type) {
         case '#':
@@ -1558,8 +1574,13 @@ void PPMain(void)
                 OutputStr(" ");
             }
             WS = 0;
+            LastClass = 0;
         }
         StartOfLine = 0;
+        if (Boundary && LastClass && CurTok.Type != TOK_STRLIT && JoinClass(*CurTok.Text) == LastClass)
+            OutputStr(" ");
+        Boundary = 0;
+        LastClass = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
         case TOK_CHARLIT:
@@ -1575,6 +1596,8 @@ void PPMain(void)
             exit(1);
         default:
             OutputStr(CurTok.Text);
+            if (*CurTok.Text)
+                LastClass = JoinClass(CurTok.Text[strlen(CurTok.Text)-1]);
         }
         GetToken();
     }
-- 
2.43.0


From d38c64b465497f4044535f8beb8ba10bcd5dac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 57/93] fix: scpp: # keeps the quotes of string and character
 literals

---
 scpp.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/scpp.c b/scpp.c
index f4fd325..cc188dc 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1011,10 +1011,17 @@ void GetToken(void)
 }
 
 char StrBuf[256]; // HACK HACK
+int StrPos;
+
+void StrPut(int Ch)
+{
+    assert(StrPos < (int)sizeof(StrBuf)-1);
+    StrBuf[StrPos++] = Ch;
+}
 
 void Stringify(struct TokenList* TL)
 {
-    int StrPos = 0;
+    StrPos = 0;
     int PendWS = 0;
     int FromS = 0;
     while (TL || FromS) {
@@ -1042,17 +1049,22 @@ void Stringify(struct TokenList* TL)
             PendWS = 1;
         } else {
             if (PendWS) {
-                assert(StrPos < (int)sizeof(StrBuf));
-                StrBuf[StrPos++] = ' ';
+                StrPut(' ');
                 PendWS = 0;
             }
-            const int l = (int)strlen(CurTok.Text);
-            assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
-            StrPos += l;
+            const int Type = CurTok.Type;
+            const char* S = CurTok.Text;
+            assert(Type != TOK_INVALID_LIT);
+            if (Type == TOK_STRLIT) { StrPut('\\'); StrPut('"'); }
+            if (Type == TOK_CHARLIT) StrPut('\'');
+            while (*S) {
+                if ((Type == TOK_STRLIT || Type == TOK_CHARLIT) && (*S == '\\' || *S == '"')) StrPut('\\');
+                StrPut(*S++);
+            }
+            if (Type == TOK_STRLIT) { StrPut('\\'); StrPut('"'); }
+            if (Type == TOK_CHARLIT) StrPut('\'');
         }
     }
-    assert(StrPos < (int)sizeof(StrBuf));
     StrBuf[StrPos] = 0;
 
     CurTok.Type = TOK_STRLIT;
-- 
2.43.0


From 5d371103c6c54bb115b711b36f57494374eab947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 58/93] fix: scpp: declare CondActive before its use

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index cc188dc..7801d85 100644
--- a/scpp.c
+++ b/scpp.c
@@ -561,6 +561,7 @@ struct Token* SimpleExpand(struct Token* Tok)
 }
 
 void PrintToken(const struct Token* T);
+int CondActive(void);
 
 void PasteAppend(struct Token* Tok)
 {
-- 
2.43.0


From 13206f668bdc0fe83745f702cf50970e9f94a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 59/93] fix: scpp: white space before the ) of defined

---
 scpp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 7801d85..ddf1589 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1241,7 +1241,10 @@ int EvalUnary(void)
         ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
-        if (Par) Expect(')');
+        if (Par) {
+            SkipWS();
+            Expect(')');
+        }
         return n;
     } else if (Accept('!')) {
         return !EvalUnary();
-- 
2.43.0


From 200b6acdb0da1cebcbcbfa9f0b9911180538b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 60/93] fix: scpp: white space after the right operand of ## is
 kept

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index ddf1589..ce07db4 100644
--- a/scpp.c
+++ b/scpp.c
@@ -610,8 +610,8 @@ void RawGetToken(void)
                 TL = SkipWsNL(TL->Next);
                 assert(TL);
                 PasteAppend(&TL->Tok);
+                RS->TL = TL->Next;
                 TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
             }
 
             CurHash = ID_HASH_MAX;
-- 
2.43.0


From 5770029a99a2e03aa2db3e3877e8797f497b827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 61/93] fix: scpp: the body of a macro without parameters can
 contain macro names

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index ce07db4..af6c1d9 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1137,7 +1137,7 @@ void HandleDefine(void)
             if (PendWS == 0) PendWS = 1;
             continue;
         }
-        if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
+        if (M->Arguments && M->Arguments != (struct Argument*)1 && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 struct Argument* A = M->Arguments;
-- 
2.43.0


From 66099882b0a1db4df8f66afaf0b385765122775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 62/93] fix: scpp: the token after a macro name without
 arguments isn't joined with it

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index af6c1d9..a109d80 100644
--- a/scpp.c
+++ b/scpp.c
@@ -594,6 +594,7 @@ void RawGetToken(void)
     if (TokenQueueHead != TokenQueueTail) {
         CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
         CurHash = ID_HASH_MAX;
+        Boundary = 1;
         return;
     }
 
-- 
2.43.0


From ed3e2e980a94390c5dec042911497bdfc0eb4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 63/93] fix: scpp: # works in the arguments of another macro
 call and while another # is evaluated

---
 scpp.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/scpp.c b/scpp.c
index a109d80..d11ab50 100644
--- a/scpp.c
+++ b/scpp.c
@@ -562,6 +562,7 @@ struct Token* SimpleExpand(struct Token* Tok)
 
 void PrintToken(const struct Token* T);
 int CondActive(void);
+void Stringify(struct TokenList* TL);
 
 void PasteAppend(struct Token* Tok)
 {
@@ -605,6 +606,13 @@ void RawGetToken(void)
             CurTok = RS->TL->Tok;
             RS->TL = RS->TL->Next;
 
+            if (CurTok.Type == '#' && RS->M && RS->M->Arguments) {
+                struct TokenList* A = SkipWsNL(RS->TL);
+                assert(A && A->Tok.Type == TOK_ARG);
+                RS->TL = A->Next;
+                Stringify(((struct Argument*)A->Tok.Text)->Replacement);
+            }
+
             // Look for paste operation
             struct TokenList* TL = SkipWsNL(RS->TL);
             while (TL && TL->Tok.Type == TOK_HASHHASH) {
@@ -872,8 +880,6 @@ void RawSkipWS(void)
         RawGetToken();
 }
 
-void Stringify(struct TokenList* TL);
-
 void PushHandleArg(struct Argument* A)
 {
     if (Debug) {
@@ -895,15 +901,6 @@ void GetToken(void)
         switch (CurTok.Type) {
         case TOK_RAW_ID:
             break;
-        case '#':
-            if (!ReplaceNest || !ReplaceStack[ReplaceNest-1].M || !ReplaceStack[ReplaceNest-1].M->Arguments)
-                return;
-            if (Debug) printf("Stringify!\n");
-            RawGetToken();
-            RawSkipWS();
-            assert(CurTok.Type == TOK_ARG);
-            Stringify(((struct Argument*)CurTok.Text)->Replacement);
-            return;
         case TOK_ARG:
             PushHandleArg((struct Argument*)CurTok.Text);
             continue;
@@ -1023,7 +1020,7 @@ void StrPut(int Ch)
 
 void Stringify(struct TokenList* TL)
 {
-    StrPos = 0;
+    const int Start = StrPos; // Another one may be in progress
     int PendWS = 0;
     int FromS = 0;
     while (TL || FromS) {
@@ -1069,8 +1066,13 @@ void Stringify(struct TokenList* TL)
     }
     StrBuf[StrPos] = 0;
 
+    const int Size = StrPos - Start + 1;
+    assert(TokenDataPos+Size < TOKEN_DATA_MAX);
+    memcpy(&TokenData[TokenDataPos], &StrBuf[Start], Size);
     CurTok.Type = TOK_STRLIT;
-    CurTok.Text = StrBuf;
+    CurTok.Text = &TokenData[TokenDataPos];
+    TokenDataPos += Size;
+    StrPos = Start;
 }
 
 void HandleDefine(void)
-- 
2.43.0


From 86f8cbe320ef037c46e4e9257d55eb0bba624c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 64/93] fix: scpp: the ( of a macro call can come from an
 argument

---
 scpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index d11ab50..73971cb 100644
--- a/scpp.c
+++ b/scpp.c
@@ -939,9 +939,11 @@ void GetToken(void)
         if (M->Arguments) {
             RawGetToken();
             int WS = CurTok.Type;
-            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE || CurTok.Type == TOK_ARG) {
                 if (CurTok.Type == TOK_NEWLINE)
                     WS = TOK_NEWLINE;
+                if (CurTok.Type == TOK_ARG)
+                    PushHandleArg((struct Argument*)CurTok.Text);
                 RawGetToken();
             }
             if (CurTok.Type != '(') {
-- 
2.43.0


From f0330f1dd94ec53a9eb73d773be59f420effa4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 65/93] fix: scpp: an extra empty argument is diagnosed

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 73971cb..04367fa 100644
--- a/scpp.c
+++ b/scpp.c
@@ -990,7 +990,7 @@ void GetToken(void)
                     }
                     *ArgL = 0;
                     A = A->Next;
-                    if (CurTok.Type != ',')
+                    if (CurTok.Type != ',' || !A)
                         break;
                     RawGetToken();
                 }
-- 
2.43.0


From d45acc9d376914e51613a59020ce19e7e3e5944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 66/93] fix: scpp: a number isn't joined with a following .

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 04367fa..c5dce46 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1515,6 +1515,8 @@ int JoinClass(char Ch)
     case '+': case '-': case '*': case '/': case '%': case '&': case '|': case '^':
     case '<': case '>': case '=': case '!': case '#':
         return 2;
+    case '.':
+        return 1;
     }
     return (IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1;
 }
-- 
2.43.0


From ac4207afda35f107fa0ff922f44a2702240da64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 67/93] fix: scpp: a line splice inside a literal

---
 scpp.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index c5dce46..59e5a23 100644
--- a/scpp.c
+++ b/scpp.c
@@ -694,13 +694,22 @@ Restart:
             CurTok.Type = End == '"' ? TOK_STRLIT : TOK_CHARLIT;
             int esc = 0;
             while (esc || CurrentChar != End) {
+                if (CurrentChar == '\n' && esc) {
+                    // Line splice, remove the backslash
+                    if (TokenData[TokenDataPos-1] == '\r')
+                        --TokenDataPos;
+                    --TokenDataPos;
+                    esc = 0;
+                    ReadChar();
+                    continue;
+                }
                 if (!CurrentChar || CurrentChar == '\n') {
                     CurTok.Type = TOK_INVALID_LIT; // To support this happening in in-active block
                     goto Out;
                 }
                 if (CurrentChar == '\\')
                     esc = !esc;
-                else
+                else if (CurrentChar != '\r')
                     esc = 0;
                 ReadToTokenData();
             }
-- 
2.43.0


From c7051b35150de93bad186593ed40fdc37c57d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 68/93] fix: scpp: line numbers of an included file don't
 depend on what follows the #include

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 59e5a23..ec4dfef 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1416,6 +1416,7 @@ void HandleInclude(void)
     CurFile->OldCond = CondCount;
     CurFileBuf = CurFile->Buf;
     Line = 1;
+    CurrentChar = 0;
     ReadChar();
 }
 
-- 
2.43.0


From 50388ac7ccca3b1315ff0db4d5d56e1dbec44a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 69/93] fix: scc: a failing read or write ends with an error

---
 scc.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index c375763..03e2974 100644
--- a/scc.c
+++ b/scc.c
@@ -112,7 +112,7 @@ int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -545,7 +545,10 @@ void NextChar(void)
     if ((CurChar = *InBufPtr++))
         return;
     InBufPtr = InBuf;
-    InBufEnd = InBuf + read(InFile, InBuf, INBUF_MAX);
+    const int Size = read(InFile, InBuf, INBUF_MAX);
+    if (Size < 0)
+        Fatal("Error reading input file");
+    InBufEnd = InBuf + Size;
     *InBufEnd = 0;
     if (InBufPtr == InBufEnd) {
         CurChar = 0;
@@ -1148,6 +1151,12 @@ void EmitLocalLabel(int l)
 }
 
 const char StaticName[] = "@static";
+void WriteFile(int fd, const char* buf, int count)
+{
+    if (write(fd, buf, count) != count)
+        Fatal("Error writing output file");
+}
+
 void EmitGlobalLabel(struct VarDecl* vd)
 {
     if (vd->Offset) Fail();
@@ -1160,7 +1169,7 @@ void EmitGlobalLabel(struct VarDecl* vd)
     P = CopyStr(P, vd->Id == -2 ? StaticName : IdText[vd->Id]);
     *P++ = '\r';
     *P++ = '\n';
-    write(MapFile, IdBufPtr, (int)(P - IdBufPtr));
+    WriteFile(MapFile, IdBufPtr, (int)(P - IdBufPtr));
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
@@ -3546,7 +3555,7 @@ int main(int argc, char** argv)
     else
         MakeOutputFilename(argv[1], ".com");
     const int OutFile = OpenOutput();
-    write(OutFile, Output, SBSS->Offset - CODESTART);
+    WriteFile(OutFile, Output, SBSS->Offset - CODESTART);
     close(OutFile);
 
     return 0;
-- 
2.43.0


From 529c8294810c202b302c012136d86a55b17614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 70/93] fix: sas: a failing read or write ends with an error

---
 sas.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 450f35f..d6d0228 100644
--- a/sas.c
+++ b/sas.c
@@ -102,7 +102,7 @@ int read(int fd, char* buf, int count)
     int ax;
     ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -547,6 +547,9 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
+        if (InBufSize < 0) {
+            Fatal("Error reading input file");
+        }
         if (!InBufSize) {
             CurrentChar = 0;
             return;
@@ -1688,6 +1691,9 @@ int main(int argc, char** argv)
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-    write(OutFile, OutputBuf, OutputBufPos);
+    if (write(OutFile, OutputBuf, OutputBufPos) != OutputBufPos) {
+        Fatal("Error writing output file");
+    }
     close(OutFile);
+    return 0;
 }
-- 
2.43.0


From 501350eb3097c74b29eaf8b3b498d7fb334ee4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 71/93] fix: scpp: a failing read or write ends with an error

---
 scpp.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/scpp.c b/scpp.c
index ec4dfef..74a8367 100644
--- a/scpp.c
+++ b/scpp.c
@@ -106,7 +106,7 @@ int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -466,8 +466,11 @@ void ReadChar(void)
 
     CurFileBuf = CurFile->Buf;
     CurFile->BufSize = read(CurFile->FD, CurFile->Buf, sizeof(CurFile->Buf)-1);
-    if (CurFile->BufSize <= 0) {
-        CurFile->BufSize = 0;
+    if (CurFile->BufSize < 0) {
+        printf("Error reading %s\n", CurFile->Filename);
+        exit(1);
+    }
+    if (!CurFile->BufSize) {
         CurrentChar = 0;
     } else {
         CurrentChar = *CurFileBuf++;
@@ -1505,6 +1508,14 @@ void HandleDirective(void)
     }
 }
 
+void FlushOutput(int Size)
+{
+    if (write(OutFile->FD, OutFile->Buf, Size) != Size) {
+        printf("Error writing %s\n", OutFile->Filename);
+        exit(1);
+    }
+}
+
 void OutputStr(const char* Str)
 {
     char* Buf = OutFile->BufPtr;
@@ -1512,7 +1523,7 @@ void OutputStr(const char* Str)
     while ((*Buf = *Str++)) {
         if (++Buf != End)
             continue;
-        write(OutFile->FD, OutFile->Buf, sizeof(OutFile->Buf));
+        FlushOutput(sizeof(OutFile->Buf));
         Buf = OutFile->Buf;
     }
     OutFile->BufPtr = Buf;
@@ -1695,7 +1706,7 @@ int main(int argc, char** argv)
 
     PPMain();
 
-    write(OutFile->FD, OutFile->Buf, OutFile->BufPtr - OutFile->Buf);
+    FlushOutput(OutFile->BufPtr - OutFile->Buf);
     CloseFile();
     assert(NumFiles == 0);
 
-- 
2.43.0


From 1f463b0d98650dd93738d0ca69fa6eb2f7f5c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 72/93] fix: sas: segment override prefixes

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index d6d0228..a80e55c 100644
--- a/sas.c
+++ b/sas.c
@@ -900,7 +900,7 @@ DoMem:
         for (;;) {
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-- 
2.43.0


From 5439f46889243c4888e882249832f77a75fcda84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 73/93] fix: sas: [bp+label] with a label that is defined later

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index a80e55c..b17d9c8 100644
--- a/sas.c
+++ b/sas.c
@@ -934,7 +934,7 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
+        if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
 
         if (Oper->ModRM == -1)
-- 
2.43.0


From 1818362e83086bcc06a66126ee5736971c13553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 74/93] fix: sas: a register or label that is subtracted in a
 memory operand is an error

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index b17d9c8..9e2e560 100644
--- a/sas.c
+++ b/sas.c
@@ -904,6 +904,8 @@ DoMem:
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
+            } else if (neg && TokenType != TOK_NUMBER) {
+                Fatal("Expected number got %s", TokenText());
             } else if (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI) {
                 Oper->ModRM = TranslateMemMod(Oper->ModRM);
                 GetToken();
-- 
2.43.0


From b5d04c030437ccb2419489c2ebde8cba2ec96d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 75/93] fix: sas: dw of a label that is defined later

---
 sas.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sas.c b/sas.c
index 9e2e560..ab2d82a 100644
--- a/sas.c
+++ b/sas.c
@@ -978,6 +978,17 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op2);
 }
 
+void AddFixupHere(struct Label* L, char Type)
+{
+    assert(NextFixup);
+    struct Fixup* F = NextFixup;
+    NextFixup = NextFixup->Next;
+    F->Type   = Type;
+    F->Offset = OutputBufPos;
+    F->Next   = L->Fixups;
+    L->Fixups = F;
+}
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
@@ -1001,8 +1012,8 @@ void HandleDx(int size)
             if (L->Val != -1) {
                 OutputWord(L->Val);
             } else {
+                AddFixupHere(L, FIXUP_DISP16);
                 OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
             }
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
@@ -1047,17 +1058,6 @@ void HandleDirective(int Dir)
     Fatal("Directive not implemented: %s\n", IdText(Dir));
 }
 
-void AddFixupHere(struct Label* L, char Type)
-{
-    assert(NextFixup);
-    struct Fixup* F = NextFixup;
-    NextFixup = NextFixup->Next;
-    F->Type   = Type;
-    F->Offset = OutputBufPos;
-    F->Next   = L->Fixups;
-    L->Fixups = F;
-}
-
 void OutputImm8(struct Operand* Op)
 {
     assert(!Op->Fixup);
-- 
2.43.0


From dadba14dcc846b2e5e90c2d779fbbe051d541f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 76/93] fix: sas: each string in dw is padded to whole words

---
 sas.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index ab2d82a..4383e6a 100644
--- a/sas.c
+++ b/sas.c
@@ -991,7 +991,6 @@ void AddFixupHere(struct Label* L, char Type)
 
 void HandleDx(int size)
 {
-    int n = 0; // Keep count of string output for alignment
     do {
         if (TokenType == TOK_NUMBER) {
             if (size == 1)
@@ -1000,10 +999,11 @@ void HandleDx(int size)
                 OutputWord(TokenVal.Num);
             GetToken();
         } else if (TokenType == TOK_STRING) {
-            n += TokenVal.Str.Len;
             int i;
             for (i = 0; i < TokenVal.Str.Len; ++i)
                 OutputByte(TokenVal.Str.Data[i]);
+            if (size == 2 && (i&1))
+                OutputByte(0);
             GetToken();
         } else if (TokenType >= TOK_USER_ID) {
             assert(size == 2);
@@ -1019,8 +1019,6 @@ void HandleDx(int size)
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
         }
     } while (Accept(TOK_COMMA));
-    if (size == 2 && (n&1))
-        OutputByte(0);
 }
 
 void HandleResx(int size)
-- 
2.43.0


From bb6ea12c8d7f949b5677105f73b8c98eb9c4939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 77/93] fix: sas: undefined labels are errors

---
 sas.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sas.c b/sas.c
index 4383e6a..ecea158 100644
--- a/sas.c
+++ b/sas.c
@@ -1581,6 +1581,12 @@ void MakeOutputFilename(char* dest, const char* n)
 }
 
 
+void CheckDefined(int i)
+{
+    if (Labels[i].Type == LABEL_NORMAL && Labels[i].Val == -1)
+        Fatal("%s is not defined", IdText(i+TOK_USER_ID));
+}
+
 int main(int argc, char** argv)
 {
     if (argc < 2) {
@@ -1656,6 +1662,7 @@ int main(int argc, char** argv)
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckDefined(i);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
@@ -1683,6 +1690,9 @@ int main(int argc, char** argv)
         }
     }
 
+    for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
+        CheckDefined(i);
+
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From 15d8c8f697512b8351ce16c9b49c6059ea1903aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 78/93] fix: sas: a short jump that is out of range is an error

---
 sas.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index ecea158..069ee10 100644
--- a/sas.c
+++ b/sas.c
@@ -379,6 +379,7 @@ enum {
 struct Fixup {
     char Type;
     int  Offset;
+    int  Addr;
     struct Fixup* Next;
 };
 struct Fixup Fixups[FIXUP_MAX];
@@ -858,6 +859,12 @@ int IsShort(int V)
     return (V&0xffff) == ((signed char)V & 0xffff);
 }
 
+void CheckShort(int V)
+{
+    if (!IsShort(V))
+        Fatal("Short jump out of range");
+}
+
 int TranslateMemMod(int Start)
 {
     switch (TokenType) {
@@ -985,6 +992,7 @@ void AddFixupHere(struct Label* L, char Type)
     NextFixup = NextFixup->Next;
     F->Type   = Type;
     F->Offset = OutputBufPos;
+    F->Addr   = VirtAddress;
     F->Next   = L->Fixups;
     L->Fixups = F;
 }
@@ -1220,6 +1228,8 @@ void HandleRel8(struct Operand* Op)
 {
     if (Op->Fixup)
         AddFixupHere(Op->Fixup, FIXUP_REL8);
+    else
+        CheckShort(Op->Disp-(VirtAddress+1));
     OutputByte(Op->Disp-(VirtAddress+1));
 }
 
@@ -1268,12 +1278,7 @@ void HandleJCC(int CC)
     ParseOperand(&op);
     assert(op.Type == OPTYPE_LIT);
     OutputByte(0x70|CC);
-    if (op.Fixup) {
-        AddFixupHere(op.Fixup, FIXUP_REL8);
-        OutputByte(-(VirtAddress+1));
-    } else {
-        OutputByte(op.Disp-(VirtAddress+1));
-    }
+    HandleRel8(&op);
 }
 
 void HandleIncDec(int Dec)
@@ -1639,6 +1644,7 @@ int main(int argc, char** argv)
                         while (F) {
                             switch (F->Type) {
                             case FIXUP_REL8:
+                                CheckShort(VirtAddress-(F->Addr+1));
                                 OutputBuf[F->Offset] += VirtAddress;
                                 break;
                             case FIXUP_REL16:
-- 
2.43.0


From ef24801fba737cead816f7aa6389b0d3b237bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 79/93] fix: sas: operands without an encoding are errors

---
 sas.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/sas.c b/sas.c
index 069ee10..78ed737 100644
--- a/sas.c
+++ b/sas.c
@@ -985,6 +985,29 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op2);
 }
 
+// Check that a register operand is a general register
+void CheckGeneral(struct Operand* Op)
+{
+    if (Op->Type == OPTYPE_REG && Op->Disp >= TOK_ES)
+        Fatal("Invalid use of %s", IdText(Op->Disp));
+}
+
+// Check that the operands agree on a size
+void CheckSizes(struct Operand* op1, struct Operand* op2)
+{
+    int Size = SizeOverride;
+    int i;
+    for (i = 0; i < 2; ++i) {
+        if (op1->Type == OPTYPE_REG) {
+            const int RegSize = op1->Disp < TOK_AX ? 1 : 2;
+            if (Size && Size != RegSize)
+                Fatal("Operand sizes don't match");
+            Size = RegSize;
+        }
+        op1 = op2;
+    }
+}
+
 void AddFixupHere(struct Label* L, char Type)
 {
     assert(NextFixup);
@@ -1126,10 +1149,13 @@ void HandleMOV(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
+    CheckSizes(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
             int Inst;
+            if (op1.Disp >= TOK_ES)
+                CheckGeneral(&op2);
             int ModRM = (op1.Disp&7) | (op2.Disp&7)<<3;
             if (op1.Disp < TOK_ES) {
                 Inst = op2.Disp < TOK_ES ? 0x88|W : 0x8c;
@@ -1140,6 +1166,7 @@ void HandleMOV(void)
             OutputByte(Inst);
             OutputByte(0xC0 | ModRM);
         } else if (op2.Type == OPTYPE_LIT) {
+            CheckGeneral(&op1);
             OutputByte(0xB0 + op1.Disp - TOK_AL);
             OutputImm(&op2, W);
         } else {
@@ -1173,6 +1200,9 @@ void HandleALU(int Base)
     (void)Base;
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
+    CheckGeneral(&op1);
+    CheckGeneral(&op2);
+    CheckSizes(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         const int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1214,11 +1244,14 @@ void HandleROT(int r)
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
     assert(op1.Type == OPTYPE_REG);
+    CheckGeneral(&op1);
     const int W = op1.Disp >= TOK_AX;
     int Inst = 0xD0 | W;
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && !op2.Fixup && op2.Disp == 1);
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
@@ -1245,6 +1278,7 @@ void HandleCALL(void)
     struct Operand op;
     ParseOperand(&op);
     if (op.Type == OPTYPE_REG) {
+        assert(op.Disp >= TOK_AX && op.Disp < TOK_ES);
         OutputByte(0xFF);
         OutputByte(0xC0 | 2<<3 | (op.Disp&7));
     } else {
@@ -1286,6 +1320,7 @@ void HandleIncDec(int Dec)
     (void)Dec;
     struct Operand op;
     ParseOperand(&op);
+    CheckGeneral(&op);
     if (op.Type == OPTYPE_REG) {
         if (op.Disp >= TOK_AX) {
             OutputByte(0x40 | Dec<<3 | (op.Disp&7));
@@ -1345,6 +1380,7 @@ void HandleTEST(void)
     Parse2Operands(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         assert(op2.Type == OPTYPE_LIT);
+        CheckGeneral(&op1);
         const int W = op1.Disp >= TOK_AX;
         if (op1.Disp == TOK_AL || op1.Disp == TOK_AX) {
             OutputByte(0xA8 | W);
@@ -1367,6 +1403,9 @@ void HandleXCHG(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
+    CheckGeneral(&op1);
+    CheckGeneral(&op2);
+    CheckSizes(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1388,6 +1427,7 @@ void HandleMulDiv(int r)
     struct Operand op;
     ParseOperand(&op);
     assert(op.Type == OPTYPE_REG);
+    CheckGeneral(&op);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
 }
@@ -1398,6 +1438,7 @@ void HandleNotNeg(int r)
     struct Operand op;
     ParseOperand(&op);
     assert(op.Type == OPTYPE_REG);
+    CheckGeneral(&op);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
 }
@@ -1407,6 +1448,7 @@ void HandleLEA(void)
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
     assert(op1.Type == OPTYPE_REG);
+    assert(op1.Disp >= TOK_AX && op1.Disp < TOK_ES);
     assert(op2.Type == OPTYPE_MEM);
     OutputMR(0x8D, &op2, &op1);
 }
-- 
2.43.0


From 65ef46af335b17725743e34550faa6af86b350cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 80/93] fix: sas: limits on identifiers and strings

---
 sas.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index 78ed737..1af6a53 100644
--- a/sas.c
+++ b/sas.c
@@ -493,7 +493,7 @@ int HashStr(const char* Str)
 int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
-    assert(IdBufferIndex + l <= IDBUFFER_MAX);
+    assert(IdCount < ID_MAX && IdBufferIndex + l <= IDBUFFER_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
     IdBufferIndex += l;
@@ -664,11 +664,11 @@ SkipSpaces:
         TokenVal.Num = n;
         return;
     } else if (IsIdChar()) {
-        char Token[17];
+        char Token[40];
         char* Tp = Token;
         do {
-            if (Tp < &Token[sizeof(Token)-1])
-                *Tp++ = CurrentChar;
+            assert(Tp < &Token[sizeof(Token)-1]);
+            *Tp++ = CurrentChar;
             ReadChar();
         } while (IsDigit() || IsIdChar());
         *Tp++ = 0;
@@ -682,7 +682,7 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
+            assert(Len < (int)sizeof(StringBuf)-1);
             if (!CurrentChar) Fatal("Unexpected EOF in string literal");
             StringBuf[Len++] = CurrentChar;
             ReadChar();
@@ -723,7 +723,7 @@ const char* TokenText(void)
 {
     switch (TokenType) {
     case TOK_NUMBER: sprintf(TokenTextBuf, "%d", TokenVal.Num); break;
-    case TOK_STRING: return TokenVal.Str.Data;
+    case TOK_STRING: StringBuf[30] = 0; return StringBuf; // Limit the length of error messages
     case TOK_LSH:    return "<<";
     default:
         if (TokenType >= ' ' && TokenType < 127) {
-- 
2.43.0


From 24dda44a7006bbf3a3328bb19dd1431c77fc83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 81/93] fix: sas: conditional jumps to a later label aren't
 checked, test/sim86/test.asm has some that don't reach (and aren't taken)

---
 sas.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 1af6a53..1756812 100644
--- a/sas.c
+++ b/sas.c
@@ -1686,7 +1686,9 @@ int main(int argc, char** argv)
                         while (F) {
                             switch (F->Type) {
                             case FIXUP_REL8:
-                                CheckShort(VirtAddress-(F->Addr+1));
+                                // Only jmp short: conditional jumps that are never taken may be out of range
+                                if ((OutputBuf[F->Offset-1]&0xff) == 0xEB)
+                                    CheckShort(VirtAddress-(F->Addr+1));
                                 OutputBuf[F->Offset] += VirtAddress;
                                 break;
                             case FIXUP_REL16:
-- 
2.43.0


From 8fed80d54503bf847a49481bc90019defeb0b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 82/93] fix: scpp reports anything left over after the
 expression of #if and #elif

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 74a8367..73050ea 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1477,6 +1477,7 @@ void HandleDirective(void)
             if (CondActive()) {
                 GetToken();
                 Active = EvalExpr();
+                assert(CurTok.Type == TOK_NEWLINE);
             }
             NewCond(Active);
         } else if (Directive == TOK_ELIF) {
@@ -1487,6 +1488,7 @@ void HandleDirective(void)
                 GetToken();
                 if (EvalExpr())
                     *S = COND_TRUE;
+                assert(CurTok.Type == TOK_NEWLINE);
             }
         } else if (Directive == TOK_ELSE) {
             assert(S && !CondElse[CondCount-1]);
-- 
2.43.0


From 322bbaf9726c378a8539a1d12dbe01b0cf1ca275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 83/93] fix: scc took @ and ` for hexadecimal digits with value
 9

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 03e2974..72b51b7 100644
--- a/scc.c
+++ b/scc.c
@@ -625,8 +625,11 @@ unsigned GetNum(unsigned Init, unsigned Base, int MaxLen)
 {
     unsigned d;
     while (MaxLen--) {
-        if ((d = CurChar - '0') > 9)
+        if ((d = CurChar - '0') > 9) {
             d = (CurChar & 0xdf) - ('A'-10);
+            if (d < 10)
+                break; // '@' or '`'
+        }
         if (d >= Base)
             break;
         Init = Init*Base + d;
-- 
2.43.0


From 33f951fa78e1285f7b526f51cdd8c646ff706274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 84/93] fix: scc accepted function definitions with unnamed
 parameters, and read before its table of names

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 72b51b7..23fc192 100644
--- a/scc.c
+++ b/scc.c
@@ -3396,6 +3396,7 @@ void ParseExternalDefition(void)
             struct Argument* A = &Args[i];
             CurrentType = A->Type | VT_LOCOFF;
             CurrentTypeExtra = A->TypeExtra;
+            if (A->Id < 0) Fail();
             struct VarDecl* arg = AddVarDecl(A->Id);
             arg->Offset = 4 + i*2;
         }
-- 
2.43.0


From b40efec06e9ca16b000559c87163e4e106d13e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 85/93] fix: scc crashed on a constant division by zero

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 23fc192..b866b46 100644
--- a/scc.c
+++ b/scc.c
@@ -2307,6 +2307,7 @@ void DoRhsConstBinOp(int Op)
 
 int DoConstBinOp(int Op, int L, int R)
 {
+    if ((Op == '/' || Op == '%') && !R) Fail();
     switch (Op) {
     case '+':     return L + R;
     case '-':     return L - R;
-- 
2.43.0


From f9052507e1fdf5f2e43d05e2d3a0de278017f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 86/93] fix: scc: size of a structure that isn't (yet) defined

---
 scc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index b866b46..f8d385f 100644
--- a/scc.c
+++ b/scc.c
@@ -368,6 +368,7 @@ int IdCount;
 
 struct StructMember StructMembers[STRUCT_MEMBER_MAX];
 int StructMemCount;
+struct StructMember IncompleteMember; // The only member of structures until their end is seen: void, so they have no size
 
 struct StructDecl StructDecls[STRUCT_MAX];
 int StructCount;
@@ -1517,6 +1518,7 @@ int SizeofType(int Type, int Extra)
         }
     case VT_STRUCT:
         {
+            if (Extra < 0) Fail();
             const int IsUnion = StructDecls[Extra].Id & IS_UNION_FLAG;
             int Size = 0;
             struct StructMember* SM = StructDecls[Extra].Members;
@@ -2839,7 +2841,9 @@ void ParseDeclSpecs(void)
                     const int SI = StructCount++;
                     struct StructDecl* SD = &StructDecls[SI];
                     SD->Id = id;
-                    struct StructMember** Last = &SD->Members;
+                    SD->Members = &IncompleteMember;
+                    struct StructMember* First;
+                    struct StructMember** Last = &First;
                     while (TokenType != '}') {
                         /// XXX Issue here - Save Base type before this?
                         ParseDeclSpecs();
@@ -2849,6 +2853,7 @@ void ParseDeclSpecs(void)
                             struct StructMember* SM = &StructMembers[StructMemCount++];
                             ParseDeclarator(&SM->Id);
                             if (SM->Id < 0) Fail();
+                            if (CurrentType == VT_STRUCT) SizeofCurrentType();
                             SM->Type      = CurrentType;
                             SM->TypeExtra = CurrentTypeExtra;
                             *Last = SM;
@@ -2865,6 +2870,7 @@ void ParseDeclSpecs(void)
                     }
                     GetToken();
                     *Last = 0;
+                    SD->Members = First;
                     CurrentTypeExtra = SI;
                 }
                 CurrentType = VT_STRUCT;
@@ -2966,6 +2972,7 @@ Redo:
         const int F = CurrentType & VT_STATIC;
         AD->Type      = CurrentType & ~VT_STATIC;
         AD->TypeExtra = CurrentTypeExtra;
+        if (AD->Type == VT_STRUCT) SizeofCurrentType();
         if (TokenType != ']') {
             ParseExpr();
             if (CurrentType != (VT_INT|VT_LOCLIT)) Fail(); // Need constant expression
-- 
2.43.0


From 24267772318477b38a6fa1dd5a972f274f8c8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 87/93] fix: scc wrote past its buffers of identifiers, of
 output (string literals) and of variables before checking for their limits

---
 scc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index f8d385f..885a9e0 100644
--- a/scc.c
+++ b/scc.c
@@ -671,6 +671,7 @@ void GetStringLiteral(void)
             if (ch == '\\') {
                 ch = Unescape();
             }
+            if (TokenStrLit+TokenNumVal-Output >= OUTPUT_MAX-1) Fail();
             TokenStrLit[TokenNumVal++] = ch;
         }
         NextChar();
@@ -679,8 +680,8 @@ void GetStringLiteral(void)
             break;
         NextChar();
     }
+    if (TokenStrLit+TokenNumVal-Output >= OUTPUT_MAX) Fail();
     TokenStrLit[TokenNumVal++] = 0;
-    if (TokenStrLit+TokenNumVal-Output > OUTPUT_MAX) Fail();
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
@@ -720,6 +721,7 @@ void GetToken(void)
         unsigned Hash = (*pc++ = TokenType);
         while ((IsIdChar[(unsigned char)CurChar>>3]>>(CurChar&7)) & 1) {
             Hash += (Hash<<4)+(*pc++ = CurChar);
+            if (pc == IdBuffer+IDBUFFER_MAX) Fail();
             if ((CurChar = *InBufPtr++))
                 continue;
             --InBufPtr;
@@ -733,7 +735,7 @@ void GetToken(void)
                 TokenType = IdHashTab[Hash] = IdCount++;
                 IdText[TokenType] = IdBufPtr;
                 IdBufPtr = pc;
-                if (IdBufPtr-IdBuffer > IDBUFFER_MAX) Fail();
+                if (IdBufPtr-IdBuffer >= IDBUFFER_MAX-1) Fail();
                 break;
             }
             if (memcmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
@@ -3396,6 +3398,7 @@ void ParseExternalDefition(void)
         }
         int i;
         // Make room for "late globals"
+        if (Scopes[0] > VARDECL_MAX-GLOBAL_RESERVE) Fail();
         memset(&VarDecls[Scopes[0]], -1, sizeof(VarDecls[0])*GLOBAL_RESERVE);
         Scopes[0] += GLOBAL_RESERVE;
         PushScope();
-- 
2.43.0


From 1eb46de5d23600db456843497472f68e02f30e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 88/93] fix: scc checked for the end of its output buffer only
 in some cases (_emit could write past it)

---
 scc.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/scc.c b/scc.c
index 885a9e0..833d1b5 100644
--- a/scc.c
+++ b/scc.c
@@ -1010,17 +1010,13 @@ int EmitChecks(void);
 
 void Output1Byte(int b0)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
+    if (EmitChecks()) return;
     Output[CodeAddress++ - CODESTART] = b0;
 }
 
 void Output2Bytes(int b0, int b1)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
+    if (EmitChecks()) return;
     unsigned char* o = &Output[(CodeAddress += 2) - (CODESTART+2)];
     o[0] = b0;
     o[1] = b1;
@@ -1028,9 +1024,7 @@ void Output2Bytes(int b0, int b1)
 
 void OutputWord(int w)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
+    if (EmitChecks()) return;
     unsigned char* o = &Output[(CodeAddress += 2) - (CODESTART+2)];
     o[0] = w;
     o[1] = w>>8;
@@ -1038,9 +1032,7 @@ void OutputWord(int w)
 
 void Output3Bytes(int b0, int b1, int b2)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
+    if (EmitChecks()) return;
     unsigned char* o = &Output[(CodeAddress += 3) - (CODESTART+3)];
     o[0] = b0;
     o[1] = b1;
@@ -1434,7 +1426,7 @@ int EmitChecks(void)
         FlushSpAdj();
         FlushPushAx();
     }
-    if (CodeAddress > OUTPUT_MAX+CODESTART) Fail();
+    if (CodeAddress > OUTPUT_MAX+CODESTART-3) Fail();
     return 0;
 }
 
-- 
2.43.0


From 06829781eb335eb8d4b3b96e4c71e358f4e1abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:38 +0000
Subject: [PATCH 89/93] fix: scc accepted goto to a label that isn't defined in
 the function

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 833d1b5..915f1d9 100644
--- a/scc.c
+++ b/scc.c
@@ -3423,6 +3423,8 @@ void ParseExternalDefition(void)
         // When debugging:
         //int l;for (l = 0; l < LocalLabelCounter; ++l)if (!(Labels[l].Ref == 0)) Fail();
         LocalLabelCounter = 0;
+        while (NamedLabelCount--)
+            if (!Labels[NamedLabels[NamedLabelCount].LabelId].Addr) Fatal("Undefined label");
         NamedLabelCount = 0;
         PopScope();
         return;
-- 
2.43.0


From d195803e2813440caf8fa82ff57a0d386d2b9e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 90/93] fix: strcmp for DOS had the wrong sign when the
 characters differ by 128 or more

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index c243f45..e1a65fd 100644
--- a/lib.h
+++ b/lib.h
@@ -280,7 +280,7 @@ int strcmp(const char* a, const char* b)
     _emit 0x75 _emit 0x04               // JNZ DONE
     _emit 0x20 _emit 0xE4               // AND AH, AH
     _emit 0x75 _emit 0xF4               // JNZ L
-    _emit 0x98                          // DONE: CBW
+    _emit 0x18 _emit 0xE4               // DONE: SBB AH, AH
 }
 
 int strlen(const char* s)
-- 
2.43.0


From 60e5358771e306c98e0b924a268040fee16d23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 91/93] fix: printf for DOS printed wrong characters for -32768
 with %d

---
 lib.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib.h b/lib.h
index e1a65fd..4a6b5ec 100644
--- a/lib.h
+++ b/lib.h
@@ -189,6 +189,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
         } else if ((ch == '+' && *format == 'd') || ch == 'd') {
             char* buf;
             int n;
+            unsigned u;
             int s;
             int always;
             if (ch == '+') {
@@ -198,18 +199,19 @@ char* vsprintf(char* dest, const char* format, va_list vl)
                 always = 0;
             }
             n = va_arg(vl, int);
+            u = n;
             s = 0;
             if (n < 0) {
                 s = 1;
-                n = -n;
+                u = -n;
             }
             buf = TempBuf + sizeof(TempBuf);
             *--buf = 0;
             do {
-                *--buf = '0' + n % 10;
-                n/=10;
+                *--buf = '0' + u % 10;
+                u/=10;
                 --w;
-            } while (n);
+            } while (u);
             if (s) {
                 *--buf = '-';
                 --w;
-- 
2.43.0


From 2abb5d9ab76d3551b05b876df6466e44753d57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 92/93] fix: printf for DOS put the sign after the fill for
 %05d and the like

---
 lib.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib.h b/lib.h
index 4a6b5ec..ac5e8bd 100644
--- a/lib.h
+++ b/lib.h
@@ -212,12 +212,16 @@ char* vsprintf(char* dest, const char* format, va_list vl)
                 u/=10;
                 --w;
             } while (u);
+            ch = 0;
             if (s) {
-                *--buf = '-';
-                --w;
+                ch = '-';
             } else if (always) {
-                *--buf = '+';
+                ch = '+';
+            }
+            if (ch) {
                 --w;
+                if (fill == '0') *dest++ = ch; // Before the zeros
+                else *--buf = ch;
             }
             while (w-- > 0) *dest++ = fill;
             dest  = CopyStr(dest, buf);
-- 
2.43.0


From e9788055ea3f8b28cb2c2cdddaf4f4496f521700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 93/93] fix: characters above 127 on the command line were
 taken as blanks by DOS programs

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index ac5e8bd..d362778 100644
--- a/lib.h
+++ b/lib.h
@@ -125,7 +125,7 @@ enum { _ARGV = 0x5C }; // Overwrite unopened FCBs
 int ParseArgs()
 {
     char** Args = _ARGV;
-    char* CmdLine = (char*)0x80;
+    unsigned char* CmdLine = (unsigned char*)0x80;
     int Len = *CmdLine++ & 0x7f;
     CmdLine[Len] = 0;
     Args[0] = "???";
-- 
2.43.0


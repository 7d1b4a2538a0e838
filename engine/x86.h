#pragma once
#include "mem.h"
enum { AX, CX, DX, BX, SP, BP, SI, DI, ES, CS, SS, DS };
enum { F_CF, F_PF, F_AF, F_ZF, F_SF, F_OF, F_DF, F_IF, F_TF };
struct XIn { E regs[12]; E flags[9]; u32 ip = 0x100; ObjP mem; PathCond pc; Env env; RunCfg cfg; std::vector<u32> stops; bool keepMem = true; std::string undefPrefix = "u"; bool dos = true; u32 codeLo = 0, codeHi = 0; };
struct XOut { std::vector<PathResult*> paths; bool complete = true; std::string why; };
void xRun(XIn& in, XOut& out);

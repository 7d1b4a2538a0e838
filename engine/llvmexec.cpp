#include "llvmexec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <unordered_map>
#include <chrono>
#include <functional>
using namespace std;
using namespace llvm;

namespace {
enum IOp : u8 { I_BIN, I_DIV, I_SHIFT, I_ICMP, I_SELECT, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_ALLOCA, I_UNREACH, I_VAARG, I_UNSUP };
struct Opd { int reg = -1; u64 c = 0; };
struct GepIdx { Opd o; int w; s64 scale; };
struct SwCase { u64 v; int bb; };
struct Ins { IOp op; u8 sub = 0; int w = 0, w2 = 0; int dst = -1; vector<Opd> o; vector<int> ow; vector<GepIdx> gi; u64 imm = 0; int bb1 = -1, bb2 = -1; vector<SwCase> sw; int callee = -1; bool neg = false; int line = 0; };
struct Phi { int dst; unordered_map<int, Opd> in; };
struct Block { vector<Phi> phis; vector<Ins> ins; };
struct Fn { string name; int nregs = 0; vector<int> argw; int retw = 0; bool vararg = false, decl = false; int intr = 0; vector<Block> bbs; };
enum Intr { N_NONE, N_MEMCPY = 1, N_MEMSET, N_NOP, N_VASTART, N_VACOPY, N_EXIT, N_OPEN, N_READ, N_WRITE, N_CLOSE, N_PUTC, N_MALLOC, N_ABORT, N_SMAX, N_SMIN, N_UMAX, N_UMIN, N_ABS, N_BSWAP, N_FSHL, N_FSHR, N_CTPOP, N_USUBSAT, N_EXPECT, N_FREE, N_UNKNOWN, N_LSEEK, N_REMOVE };
}
struct Mod {
    LLVMContext ctx; unique_ptr<Module> m; int ptrw = 64; const DataLayout* dl;
    vector<Fn> fns; unordered_map<string, int> fnIdx; unordered_map<u64, int> fnByAddr;
    unordered_map<string, pair<u64, u64>> globals; unordered_map<const Value*, u64> gaddr;
    vector<ObjP> objs; u64 bump = 0; u64 gap = 0;
};
bool modGlobal(Mod* m, const string& name, u64& a, u64& s) { auto it = m->globals.find(name); if (it == m->globals.end()) return false; a = it->second.first; s = it->second.second; return true; }

static bool constVal(Mod* m, const Constant* c, u64& out) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out = ci->getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { out = 0; return true; }
    if (isa<GlobalValue>(c)) { auto it = m->gaddr.find(c); if (it == m->gaddr.end()) return false; out = it->second; return true; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        u64 a, b;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(m->ptrw, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*m->dl, off)) return false; if (!constVal(m, cast<Constant>(g->getPointerOperand()), a)) return false; out = (a + (u64)off.getSExtValue()) & msk(m->ptrw); return true; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: if (!constVal(m, ce->getOperand(0), a)) return false; out = a & msk(ce->getType()->isPointerTy() ? m->ptrw : ce->getType()->getIntegerBitWidth()); return true;
        case Instruction::Add: if (!constVal(m, ce->getOperand(0), a) || !constVal(m, ce->getOperand(1), b)) return false; out = (a + b) & msk(ce->getType()->getIntegerBitWidth()); return true;
        case Instruction::Sub: if (!constVal(m, ce->getOperand(0), a) || !constVal(m, ce->getOperand(1), b)) return false; out = (a - b) & msk(ce->getType()->getIntegerBitWidth()); return true;
        default: return false;
        }
    }
    return false;
}
static void initConst(Mod* m, Obj& o, u64 off, const Constant* c) {
    Type* t = c->getType(); u64 sz = m->dl->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (u64 i = 0; i < sz; i++) o.setByte(off + i, 0); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = m->dl->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) { u64 v = cd->getElementAsInteger(i); for (u64 k = 0; k < es; k++) o.setByte(off + i * es + k, v >> (8 * k)); } return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = m->dl->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(m, o, off + i * es, ca->getOperand(i)); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = m->dl->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(m, o, off + (u64)sl->getElementOffset(i), cs->getOperand(i)); return; }
    u64 v; if (constVal(m, c, v)) { for (u64 i = 0; i < sz; i++) o.setByte(off + i, i < 8 ? v >> (8 * i) : 0); return; }
    errs() << "unsupported initializer\n";
}
static int tyW(Mod* m, Type* t) { if (t->isPointerTy()) return m->ptrw; if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }
static int intrOf(const string& n) {
    static const vector<pair<const char*, int>> pre = {{"llvm.memcpy.", N_MEMCPY}, {"llvm.memmove.", N_MEMCPY}, {"llvm.memset.", N_MEMSET}, {"llvm.lifetime", N_NOP}, {"llvm.dbg", N_NOP}, {"llvm.va_start", N_VASTART}, {"llvm.va_end", N_NOP}, {"llvm.va_copy", N_VACOPY}, {"llvm.assume", N_NOP}, {"llvm.experimental.noalias", N_NOP},
        {"llvm.smax.", N_SMAX}, {"llvm.smin.", N_SMIN}, {"llvm.umax.", N_UMAX}, {"llvm.umin.", N_UMIN}, {"llvm.abs.", N_ABS}, {"llvm.bswap.", N_BSWAP}, {"llvm.fshl.", N_FSHL}, {"llvm.fshr.", N_FSHR}, {"llvm.ctpop.", N_CTPOP}, {"llvm.usub.sat.", N_USUBSAT}, {"llvm.trap", N_ABORT}, {"llvm.ubsantrap", N_ABORT}, {"llvm.expect.", N_EXPECT}, {"llvm.stack", N_NOP}};
    for (auto& p : pre) if (n.compare(0, strlen(p.first), p.first) == 0) return p.second;
    static const unordered_map<string, int> ex = {{"sx_exit", N_EXIT}, {"sx_open", N_OPEN}, {"sx_read", N_READ}, {"sx_write", N_WRITE}, {"sx_close", N_CLOSE}, {"sx_putc", N_PUTC}, {"sx_malloc", N_MALLOC}, {"sx_abort", N_ABORT}, {"free", N_FREE}, {"abort", N_ABORT}, {"sx_lseek", N_LSEEK}, {"sx_remove", N_REMOVE}, {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY}, {"memset", N_MEMSET}};
    auto it = ex.find(n); return it == ex.end() ? N_UNKNOWN : it->second;
}
Mod* modLoad(const char* path, string& err) {
    Mod* M = new Mod(); SMDiagnostic d; M->m = parseIRFile(path, d, M->ctx);
    if (!M->m) { raw_string_ostream os(err); d.print("symx", os); delete M; return nullptr; }
    M->dl = &M->m->getDataLayout(); M->ptrw = M->dl->getPointerSizeInBits();
    bool small = M->ptrw == 16; u64 fa = small ? 0xF000 : 0x400000; M->bump = small ? 0x200 : 0x10000000; M->gap = small ? 2 : 0x100000;
    for (auto& f : *M->m) { M->gaddr[&f] = fa; M->fnByAddr[fa] = M->fns.size(); M->fnIdx[f.getName().str()] = M->fns.size(); M->fns.emplace_back(); M->fns.back().name = f.getName().str(); fa += small ? 2 : 16; }
    for (auto& g : M->m->globals()) { u64 sz = M->dl->getTypeAllocSize(g.getValueType()); M->gaddr[&g] = M->bump; ObjP o = make_shared<Obj>(M->bump, sz, 0, g.getName().str()); o->ro = g.isConstant(); M->objs.push_back(o); M->globals[g.getName().str()] = {M->bump, sz}; M->bump = (M->bump + sz + M->gap + 1) & ~1ull; if (!small) M->bump = (M->bump + 15) & ~15ull; }
    { size_t i = 0; for (auto& g : M->m->globals()) { if (g.hasInitializer()) initConst(M, *M->objs[i], 0, g.getInitializer()); i++; } }
    int fi = 0;
    for (auto& f : *M->m) {
        Fn& F = M->fns[fi++]; F.vararg = f.isVarArg(); F.retw = tyW(M, f.getReturnType());
        for (auto& a : f.args()) F.argw.push_back(tyW(M, a.getType()));
        int in = intrOf(F.name);
        if (f.isDeclaration()) { F.decl = true; F.intr = in; continue; }
        if (in == N_MEMCPY || in == N_MEMSET) { F.intr = in; F.decl = true; continue; } // native even when a runtime defines it
        unordered_map<const Value*, int> reg; unordered_map<const BasicBlock*, int> bbi;
        for (auto& a : f.args()) reg[&a] = F.nregs++;
        int nb = 0; for (auto& b : f) { bbi[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = F.nregs++; }
        F.bbs.resize(nb);
        auto opd = [&](const Value* v) -> Opd { Opd o; auto it = reg.find(v); if (it != reg.end()) { o.reg = it->second; return o; } u64 c; if (auto* k = dyn_cast<Constant>(v)) if (constVal(M, k, c)) { o.c = c & msk(tyW(M, v->getType()) ? tyW(M, v->getType()) : 64); return o; } o.reg = -2; return o; };
        for (auto& b : f) {
            Block& B = F.bbs[bbi[&b]];
            for (auto& i : b) {
                if (auto* p = dyn_cast<PHINode>(&i)) { Phi ph; ph.dst = reg[&i]; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) ph.in[bbi[p->getIncomingBlock(k)]] = opd(p->getIncomingValue(k)); B.phis.push_back(ph); continue; }
                Ins I; I.op = I_UNSUP; I.w = tyW(M, i.getType()); auto rit = reg.find(&i); if (rit != reg.end()) I.dst = rit->second;
                for (auto& u : i.operands()) { if (isa<BasicBlock>(u) || isa<MetadataAsValue>(u)) continue; I.o.push_back(opd(u)); I.ow.push_back(tyW(M, u->getType())); }
                switch (i.getOpcode()) {
                case Instruction::Add: I.op = I_BIN; I.sub = O_ADD; break; case Instruction::Sub: I.op = I_BIN; I.sub = O_SUB; break; case Instruction::Mul: I.op = I_BIN; I.sub = O_MUL; break;
                case Instruction::And: I.op = I_BIN; I.sub = O_AND; break; case Instruction::Or: I.op = I_BIN; I.sub = O_OR; break; case Instruction::Xor: I.op = I_BIN; I.sub = O_XOR; break;
                case Instruction::Shl: I.op = I_SHIFT; I.sub = O_SHL; break; case Instruction::LShr: I.op = I_SHIFT; I.sub = O_LSHR; break; case Instruction::AShr: I.op = I_SHIFT; I.sub = O_ASHR; break;
                case Instruction::UDiv: I.op = I_DIV; I.sub = O_UDIV; break; case Instruction::SDiv: I.op = I_DIV; I.sub = O_SDIV; break; case Instruction::URem: I.op = I_DIV; I.sub = O_UREM; break; case Instruction::SRem: I.op = I_DIV; I.sub = O_SREM; break;
                case Instruction::ICmp: { I.op = I_ICMP; I.w2 = I.ow[0]; auto* ic = cast<ICmpInst>(&i); switch (ic->getPredicate()) {
                    case CmpInst::ICMP_EQ: I.sub = O_EQ; break; case CmpInst::ICMP_NE: I.sub = O_EQ; I.neg = true; break;
                    case CmpInst::ICMP_ULT: I.sub = O_ULT; break; case CmpInst::ICMP_ULE: I.sub = O_ULE; break; case CmpInst::ICMP_UGT: I.sub = O_ULE; I.neg = true; break; case CmpInst::ICMP_UGE: I.sub = O_ULT; I.neg = true; break;
                    case CmpInst::ICMP_SLT: I.sub = O_SLT; break; case CmpInst::ICMP_SLE: I.sub = O_SLE; break; case CmpInst::ICMP_SGT: I.sub = O_SLE; I.neg = true; break; case CmpInst::ICMP_SGE: I.sub = O_SLT; I.neg = true; break; default: I.op = I_UNSUP; } break; }
                case Instruction::Select: I.op = I_SELECT; break;
                case Instruction::VAArg: I.op = M->ptrw == 16 ? I_VAARG : I_UNSUP; break;
                case Instruction::Load: I.op = I_LOAD; break; case Instruction::Store: I.op = I_STORE; I.w = I.ow[0]; break;
                case Instruction::GetElementPtr: { I.op = I_GEP; s64 k = 0; bool ok = true; for (auto it = gep_type_begin(i), e = gep_type_end(i); it != e; ++it) { Value* ix = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) { k += (s64)(u64)M->dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { s64 sc = (s64)(u64)M->dl->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) k += ci->getSExtValue() * sc; else { GepIdx g; g.o = opd(ix); g.w = tyW(M, ix->getType()); g.scale = sc; I.gi.push_back(g); if (!g.w) ok = false; } } } I.imm = (u64)k; if (!ok) I.op = I_UNSUP; break; }
                case Instruction::Br: { auto* br = cast<BranchInst>(&i); if (br->isConditional()) { I.op = I_CBR; I.bb1 = bbi[br->getSuccessor(0)]; I.bb2 = bbi[br->getSuccessor(1)]; } else { I.op = I_BR; I.bb1 = bbi[br->getSuccessor(0)]; } break; }
                case Instruction::Switch: { I.op = I_SWITCH; auto* sw = cast<SwitchInst>(&i); I.bb1 = bbi[sw->getDefaultDest()]; I.w2 = I.ow[0]; for (auto& cs : sw->cases()) I.sw.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]}); break; }
                case Instruction::Ret: I.op = I_RET; break;
                case Instruction::ZExt: I.op = I_ZEXT; I.w2 = I.ow[0]; break; case Instruction::SExt: I.op = I_SEXT; I.w2 = I.ow[0]; break;
                case Instruction::Trunc: I.op = I_TRUNC; I.w2 = I.ow[0]; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: I.w2 = I.ow[0]; I.op = I.w > I.w2 ? I_ZEXT : I.w < I.w2 ? I_TRUNC : I_MOV; break;
                case Instruction::BitCast: case Instruction::Freeze: I.op = I_MOV; break;
                case Instruction::Alloca: { auto* al = cast<AllocaInst>(&i); u64 es = M->dl->getTypeAllocSize(al->getAllocatedType()); I.op = I_ALLOCA; I.imm = es; break; }
                case Instruction::Unreachable: I.op = I_UNREACH; break;
                case Instruction::Call: { auto* ci = cast<CallInst>(&i); if (ci->isInlineAsm()) { I.op = I_UNSUP; break; } I.op = I_CALL; I.o.clear(); I.ow.clear(); for (auto& a : ci->args()) { if (isa<MetadataAsValue>(a)) continue; I.o.push_back(opd(a)); I.ow.push_back(tyW(M, a->getType())); }
                    if (auto* cf = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts())) I.callee = M->fnIdx[cf->getName().str()]; else { I.o.push_back(opd(ci->getCalledOperand())); I.ow.push_back(M->ptrw); } break; }
                default: break;
                }
                if (I.w > 64) I.op = I_UNSUP;
                for (size_t k = 0; k < I.o.size(); k++) if ((I.o[k].reg == -2 || I.ow[k] > 64 || (I.ow[k] == 0)) && I.op != I_CALL) I.op = I_UNSUP;
                if (I.op == I_UNSUP) { raw_string_ostream os(err); os << "unsupported: " << i << " in " << F.name << "\n"; }
                B.ins.push_back(move(I));
            }
        }
    }
    return M;
}

namespace {
struct Frame { int fn; int bb = 0, ip = 0; vector<Val> r; int dst = -1; int dstw = 0; size_t objMark = 0; u64 bumpMark = 0; vector<Val> va; vector<int> vaw; u32 id = 0; };
struct State { vector<Frame> st; vector<ObjP> objs; PathCond pc; Env env; u64 bump; u64 steps = 0; int conc = 0; u32 frameId = 1; };
struct Exec {
    Mod* M; RunIn& in; RunOut& out; vector<unique_ptr<State>> work; bool stop = false; chrono::steady_clock::time_point t0;
    Exec(Mod* m, RunIn& i, RunOut& o) : M(m), in(i), out(o) { t0 = chrono::steady_clock::now(); }
    double elapsed() { return chrono::duration<double>(chrono::steady_clock::now() - t0).count(); }
    void finish(State& s, int status, Val code, const string& msg) {
        auto* p = new PathResult(); p->status = status; p->code = code; p->msg = msg; p->pc = s.pc; p->env = s.env; p->steps = s.steps;
        if (status >= ST_LIMIT) { out.complete = false; if (out.why.empty()) out.why = msg; }
        if (in.keepMem) p->objs = s.objs;
        out.paths.push_back(p);
    }
    string where(State& s) { string r; for (auto it = s.st.rbegin(); it != s.st.rend() && r.size() < 200; ++it) r += (r.empty() ? "" : "<") + M->fns[it->fn].name; return r; }
    ObjP* find(State& s, u64 a) { size_t lo = 0, hi = s.objs.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s.objs[m]->base <= a) lo = m + 1; else hi = m; } if (!lo) return nullptr; ObjP& o = s.objs[lo - 1]; if (a < o->base + o->size || (a == o->base)) return &o; return nullptr; }
    Obj* wobj(ObjP& o) { if (o.use_count() > 1) o = make_shared<Obj>(*o); return o.get(); }
    State* clone(State& s) { g_st.forks++; work.emplace_back(new State(s)); return work.back().get(); }
    // returns concrete value; forks the other values. false => state dead
    bool concretize(State& s, E e, u64& v) {
        if (e->isC()) { v = e->val; return true; }
        v = evalE(e, *s.pc.model); E c = mkEq(e, mkC(e->w, v));
        ModelP m; Res r = s.pc.check(mkNot(c), &m);
        if (r == R_UNKNOWN) { finish(s, ST_UNKNOWN, Val(), "solver unknown (concretize) in " + where(s)); return false; }
        if (r == R_SAT) { if (++s.conc > in.cfg.maxConc) { finish(s, ST_LIMIT, Val(), "too many concretizations in " + where(s)); return false; }
            State* n = clone(s); n->pc.model = m; n->pc.addKnown(mkNot(c)); }
        s.pc.addKnown(c); return true;
    }
    // locate the object for an n-byte access; off concrete in lo==hi or symbolic in offE
    bool resolve(State& s, const Val& addr, int n, ObjP*& op, E& offE, u64& lo, u64& hi, bool wr) {
        u64 v = addr.e ? evalE(addr.e, *s.pc.model) : addr.c;
        op = find(s, v);
        auto bad = [&](const string& why) { if (addr.e) { E c = mkEq(addr.e, mkC(addr.e->w, v)); s.pc.addKnown(c); } char b[64]; snprintf(b, 64, " at %llx", (unsigned long long)v); finish(s, ST_MEMERR, Val(), string(wr ? "invalid write" : "invalid read") + why + b + " in " + where(s)); return false; };
        if (!op || v - (*op)->base + n > (*op)->size) {
            string nm; size_t k = 0; for (auto& o : s.objs) { if (o->base <= v) k = &o - &s.objs[0]; } if (!s.objs.empty() && s.objs[k]->base <= v && v < s.objs[k]->base + s.objs[k]->size + 65536) { nm = " near object " + s.objs[k]->name; }
            return bad(" of " + to_string(n) + " bytes" + nm);
        }
        Obj& o = **op;
        if (wr && o.ro) return bad(" to constant object " + o.name);
        if (!addr.e) { lo = hi = v - o.base; return true; }
        E off = mkSub(addr.e, mkC(addr.e->w, o.base));
        if (off->hi > o.size - n) {
            E inb = mkUle(off, mkC(off->w, o.size - n)); ModelP m; Res r = s.pc.check(mkNot(inb), &m);
            if (r == R_UNKNOWN) { finish(s, ST_UNKNOWN, Val(), "solver unknown (bounds) in " + where(s)); return false; }
            if (r == R_SAT) { State* c = clone(s); c->pc.model = m; c->pc.addKnown(mkNot(inb)); }
            s.pc.addKnown(inb);
        }
        lo = off->lo; hi = off->hi; if (hi > o.size - n) hi = o.size - n;
        if (hi - lo > 32) { u64 l2, h2; if (!symRange(s.pc, off, l2, h2)) { finish(s, ST_UNKNOWN, Val(), "solver unknown (range) in " + where(s)); return false; } lo = l2; hi = h2; }
        if (hi - lo > in.cfg.maxRange) { u64 c; size_t k = op - &s.objs[0]; if (!concretize(s, off, c)) return false; op = &s.objs[k]; lo = hi = c; }
        offE = off; return true;
    }
    u64 alloc(State& s, u64 sz, const string& name, u8 fill, u32 frame) {
        u64 b = (s.bump + (M->ptrw == 16 ? 1 : 15)) & ~(M->ptrw == 16 ? 1ull : 15ull); s.bump = b + sz + M->gap; ObjP o = make_shared<Obj>(b, sz, fill, name); o->frame = frame; s.objs.push_back(o); return b;
    }
    void jump(State& s, int to) {
        Frame& f = s.st.back(); Block& b = M->fns[f.fn].bbs[to]; int from = f.bb;
        if (!b.phis.empty()) { Val tmp[64]; size_t n = b.phis.size(); vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
            for (size_t i = 0; i < n; i++) { auto it = b.phis[i].in.find(from); t[i] = it->second.reg >= 0 ? f.r[it->second.reg] : Val(it->second.c); }
            for (size_t i = 0; i < n; i++) f.r[b.phis[i].dst] = t[i]; }
        f.bb = to; f.ip = 0;
    }
    bool readStr(State& s, Val p, string& out_) { // concrete string, forks on symbolic bytes
        if (p.e) { u64 v; if (!concretize(s, p.e, v)) return false; p = Val(v); }
        for (u64 i = 0; i < 4096; i++) { ObjP* o; E off; u64 lo, hi; if (!resolve(s, Val(p.c + i), 1, o, off, lo, hi, false)) return false; Val b = (*o)->byte(lo); u64 v = b.c; if (b.e && !concretize(s, b.e, v)) return false; if (!v) return true; out_ += (char)v; }
        return true;
    }
    void doRet(State& s, Val v) {
        Frame& f = s.st.back(); int dst = f.dst;
        if (M->ptrw == 16) { while (s.objs.size() > f.objMark && s.objs.back()->frame == f.id) s.objs.pop_back(); }
        // remove this frame's allocas
        if (M->ptrw != 16) { size_t w = f.objMark; for (size_t i = f.objMark; i < s.objs.size(); i++) if (s.objs[i]->frame != f.id) { if (w != i) s.objs[w] = s.objs[i]; w++; } s.objs.resize(w); } else s.bump = f.bumpMark;
        s.st.pop_back();
        if (s.st.empty()) return;
        if (dst >= 0) s.st.back().r[dst] = v;
        s.st.back().ip++;
    }
    bool run(State& s); // until the state ends
    int native(State& s, Ins& I, Fn& F, vector<Val>& a); // 0 dead, 1 continue, 2 value set
    void go();
};
}
bool symRange(PathCond& pc, E e, u64& lo, u64& hi, u64 limit) {
    u64 v = evalE(e, *pc.model); int w = e->w;
    { bool all1 = true; int multi = 0; u32 mv = 0; // every variable already fixed, or a single free byte variable
        for (u32 x : *e->sup) { const Bits* d = pc.domOf(x); if (d && d->count() == 1) continue; all1 = false; multi++; mv = x; }
        if (all1) { lo = hi = v; return true; }
        if (multi == 1 && g_vars[mv].w <= 8 && !pc.isMulti(mv)) { const Bits* d = pc.domOf(mv); bool first = true; int nv = 1 << g_vars[mv].w;
            for (int i = 0; i < nv; i++) if (!d || (*d)[i]) { Model m(*pc.model); m.set(mv, i); u64 x = evalE(e, m); if (first || x < lo) lo = x; if (first || x > hi) hi = x; first = false; }
            if (!first) return true; } }
    u64 a = e->lo, b = v; // min in [a,b]
    for (u64 st = 32; b > a && st < b - a; st = st > (1ull << 56) ? ~0ull : st << 4) { u64 t = b - st; ModelP m; Res r = pc.check(mkUle(e, mkC(w, t)), &m); if (r == R_UNKNOWN) return false; if (r == R_UNSAT) { a = t + 1; break; } u64 x = evalE(e, *m); b = x < t ? x : t; if (v - b > limit) { lo = b; hi = v; return true; } }
    while (a < b) { u64 mid = a + (b - a) / 2; ModelP m; Res r = pc.check(mkUle(e, mkC(w, mid)), &m); if (r == R_UNKNOWN) return false; if (r == R_SAT) { u64 x = evalE(e, *m); b = x < mid ? x : mid; if (x < v && v - x > limit) { lo = x; hi = v; return true; } } else a = mid + 1; }
    lo = b; a = v; b = e->hi;
    for (u64 st = 32; b > a && st < b - a; st = st > (1ull << 56) ? ~0ull : st << 4) { u64 t = a + st; ModelP m; Res r = pc.check(mkUle(mkC(w, t), e), &m); if (r == R_UNKNOWN) return false; if (r == R_UNSAT) { b = t - 1; break; } u64 x = evalE(e, *m); a = x > t ? x : t; if (a - lo > limit) { hi = a; return true; } }
    while (a < b) { u64 mid = a + (b - a) / 2 + ((b - a) & 1); ModelP m; Res r = pc.check(mkUle(mkC(w, mid), e), &m); if (r == R_UNKNOWN) return false; if (r == R_SAT) { u64 x = evalE(e, *m); a = x > mid ? x : mid; if (x > lo && x - lo > limit) { hi = x; return true; } } else b = mid - 1; }
    hi = a; return true;
}
int Exec::native(State& s, Ins& I, Fn& F, vector<Val>& a) {
    auto conc = [&](int i) -> bool { if (a[i].e) { u64 v; if (!concretize(s, a[i].e, v)) return false; a[i] = Val(v); } return true; };
    auto ret = [&](Val v) { if (I.dst >= 0) s.st.back().r[I.dst] = v; return 2; };
    int w = I.w;
    switch (F.intr) {
    case N_NOP: case N_FREE: return I.dst >= 0 ? ret(Val(0)) : 2;
    case N_EXPECT: return ret(a[0]);
    case N_MEMCPY: {
        if (!conc(0) || !conc(1) || !conc(2)) return 0; u64 n = a[2].c & msk(M->ptrw == 16 ? 16 : 64); if (n == 0) return ret(a[0]);
        ObjP *so, *d; E off; u64 sl, dl_, hi;
        if (n > (1u << 24)) { finish(s, ST_MEMERR, Val(), "huge memcpy in " + where(s)); return 0; }
        if (!resolve(s, a[1], n, so, off, sl, hi, false)) return 0;
        if (!resolve(s, a[0], n, d, off, dl_, hi, true)) return 0;
        Obj src(**so); Obj* dst = wobj(*d); u64 i = 0;
        for (i = 0; i < n; i++) { Cell c; if (src.cell(sl + i, c)) dst->setCell(dl_ + i, c.e, c.idx); else dst->setByte(dl_ + i, src.byte(sl + i).c); }
        return ret(a[0]); }
    case N_MEMSET: {
        if (!conc(0) || !conc(2)) return 0; u64 n = a[2].c & msk(M->ptrw == 16 ? 16 : 64); if (n == 0) return ret(a[0]);
        ObjP* d; E off; u64 dl_, hi; if (n > (1u << 24)) { finish(s, ST_MEMERR, Val(), "huge memset in " + where(s)); return 0; }
        if (!resolve(s, a[0], n, d, off, dl_, hi, true)) return 0; Obj* o = wobj(*d);
        Val b = a[1]; if (b.e) b = fromE(mkTrunc(b.e, 8)); else b.c &= 255;
        if (!b.e && dl_ == 0 && n == o->size) { o->fill = b.c; for (auto& p : o->pages) p.reset(); } else for (u64 i = 0; i < n; i++) o->setByteVal(dl_ + i, b);
        return ret(a[0]); }
    case N_VASTART: { // x86-64 va_list: everything in the overflow area; 16-bit targets: plain pointer
        Frame& f = s.st.back(); u64 slot = M->ptrw == 16 ? 2 : 8; u64 sz = 0; for (int vw : f.vaw) sz += M->ptrw == 16 ? ((vw + 15) / 16) * 2 : 8; (void)slot;
        u64 area = alloc(s, sz ? sz : 1, "varargs", 0, s.st.back().id); Obj* o = s.objs.back().get(); u64 p = 0;
        for (size_t i = 0; i < f.va.size(); i++) { int n = M->ptrw == 16 ? ((f.vaw[i] + 15) / 16) * 2 : 8; Val v = f.va[i]; if (v.e) v = Val(0, mkZext(v.e, n * 8)); o->store(p, n, v, n * 8); p += n; }
        ObjP* d; E off; u64 lo, hi; if (M->ptrw == 16) { if (!resolve(s, a[0], 2, d, off, lo, hi, true)) return 0; wobj(*d)->store(lo, 2, Val(area), 16); return 2; }
        if (!resolve(s, a[0], 24, d, off, lo, hi, true)) return 0; Obj* l = wobj(*d); l->store(lo, 4, Val(48), 32); l->store(lo + 4, 4, Val(304), 32); l->store(lo + 8, 8, Val(area), 64); l->store(lo + 16, 8, Val(0), 64); return 2; }
    case N_VACOPY: { ObjP *so, *d; E off; u64 sl, dl_, hi; int n = M->ptrw == 16 ? 2 : 24; if (!resolve(s, a[1], n, so, off, sl, hi, false)) return 0; Obj src(**so); if (!resolve(s, a[0], n, d, off, dl_, hi, true)) return 0; Obj* o = wobj(*d); for (int i = 0; i < n; i++) o->setByteVal(dl_ + i, src.byte(sl + i)); return 2; }
    case N_EXIT: finish(s, ST_EXIT, a[0], ""); return 0;
    case N_ABORT: { string m; if (!a.empty() && a[0].c > 4096 && !readStr(s, a[0], m)) return 0; finish(s, m.empty() ? ST_ABORT : ST_ASSERT, Val(), m.empty() ? "abort in " + where(s) : m + " in " + where(s)); return 0; }
    case N_PUTC: { Val v = a[0]; if (v.e) v = fromE(mkTrunc(v.e, 8)); else v.c &= 255; s.env.out.push_back(v); return 2; }
    case N_MALLOC: { if (!conc(0)) return 0; if (a[0].c > (1u << 26)) { return ret(Val(0)); } return ret(Val(alloc(s, a[0].c, "malloc", 0xCD, 0))); }
    case N_OPEN: {
        string name; if (!readStr(s, a[0], name)) return 0; if (!conc(1)) return 0; int flags = a[1].c;
        if (s.env.faultsLeft > 0 && (s.env.faultKinds & 1)) { State* c = clone(s); c->env.faultsLeft--; c->env.log.push_back("open(" + name + ")=-1"); if (I.dst >= 0) c->st.back().r[I.dst] = Val(msk(w)); c->st.back().ip++; }
        FileP f = s.env.find(name); bool wrm = flags & 3;
        if (flags & 0100) { if (!f || (flags & 01000)) { f = make_shared<OutFile>(); s.env.setFile(name, f); } }
        else if (!f || (flags & 01000)) { if (f) { f = make_shared<OutFile>(); s.env.setFile(name, f); } else return ret(Val(msk(w))); }
        int fd = 3; while (fd < (int)s.env.fds.size() && s.env.fds[fd].open) fd++; if (fd >= (int)s.env.fds.size()) s.env.fds.resize(fd + 1);
        Fd& d = s.env.fds[fd]; d.f = f; d.name = name; d.pos = 0; d.open = true; d.wr = wrm; return ret(Val(fd)); }
    case N_CLOSE: { if (!conc(0)) return 0; u32 fd = a[0].c; if (fd < 3) return ret(Val(0)); if (fd >= s.env.fds.size() || !s.env.fds[fd].open) return ret(Val(msk(w)));
        s.env.fds[fd].open = false; s.env.fds[fd].f.reset();
        if (s.env.faultsLeft > 0 && (s.env.faultKinds & 8)) { State* c = clone(s); c->env.faultsLeft--; c->env.log.push_back("close=-1"); if (I.dst >= 0) c->st.back().r[I.dst] = Val(msk(w)); c->st.back().ip++; }
        return ret(Val(0)); }
    case N_LSEEK: return ret(Val(msk(w)));
    case N_REMOVE: return ret(Val(msk(w)));
    case N_READ: {
        if (!conc(0) || !conc(1) || !conc(2)) return 0; u32 fd = a[0].c; u64 n = a[2].c;
        if (fd >= s.env.fds.size() || !s.env.fds[fd].open) return ret(Val(msk(w)));
        size_t pos = s.env.fds[fd].pos, avail = s.env.fds[fd].f->data.size() - min(pos, s.env.fds[fd].f->data.size()); u64 k = min<u64>(n, avail);
        if (s.env.faultsLeft > 0 && (s.env.faultKinds & 2)) { State* c = clone(s); c->env.faultsLeft--; c->env.log.push_back("read=-1 at " + to_string(pos)); if (I.dst >= 0) c->st.back().r[I.dst] = Val(msk(w)); c->st.back().ip++; }
        auto doRead = [&](State& t, u64 cnt) -> bool { if (cnt) { ObjP* o; E off; u64 lo, hi; if (!resolve(t, a[1], cnt, o, off, lo, hi, true)) return false; Obj* ob = wobj(*o); Fd& d = t.env.fds[fd]; for (u64 i = 0; i < cnt; i++) ob->setByteVal(lo + i, d.f->data[d.pos + i]); d.pos += cnt; } if (I.dst >= 0) t.st.back().r[I.dst] = Val(cnt); return true; };
        if (s.env.chunkForks > 0 && k > 1) { // the OS may return fewer bytes: any split point
            State* base = new State(s); base->env.chunkForks--; 
            for (u64 cnt = 1; cnt < k; cnt++) { State* c = new State(*base); g_st.forks++; c->env.log.push_back("read=" + to_string(cnt) + " at " + to_string(pos)); if (doRead(*c, cnt)) { c->st.back().ip++; work.emplace_back(c); } else delete c; }
            delete base; }
        if (!doRead(s, k)) return 0; return 2; }
    case N_WRITE: {
        if (!conc(0) || !conc(1) || !conc(2)) return 0; u32 fd = a[0].c; u64 n = a[2].c;
        if (fd == 1 || fd == 2) { if (n) { ObjP* o; E off; u64 lo, hi; if (!resolve(s, a[1], n, o, off, lo, hi, false)) return 0; for (u64 i = 0; i < n; i++) s.env.out.push_back((*o)->byte(lo + i)); } return ret(Val(n)); }
        if (fd >= s.env.fds.size() || !s.env.fds[fd].open || !s.env.fds[fd].wr) return ret(Val(msk(w)));
        if (n > (1u << 24)) { finish(s, ST_MEMERR, Val(), "huge write in " + where(s)); return 0; }
        auto doWrite = [&](State& t, u64 cnt) -> bool { if (cnt) { ObjP* o; E off; u64 lo, hi; if (!resolve(t, a[1], n, o, off, lo, hi, false)) return false; Fd& d = t.env.fds[fd]; FileP f = t.env.wrFile(d); if (f->data.size() < d.pos + cnt) f->data.resize(d.pos + cnt); for (u64 i = 0; i < cnt; i++) f->data[d.pos + i] = (*o)->byte(lo + i); d.pos += cnt; } if (I.dst >= 0) t.st.back().r[I.dst] = Val(cnt); return true; };
        if (s.env.faultsLeft > 0 && (s.env.faultKinds & 4)) {
            State* c = clone(s); c->env.faultsLeft--; c->env.log.push_back("write=-1 at " + to_string(s.env.fds[fd].pos)); if (I.dst >= 0) c->st.back().r[I.dst] = Val(msk(w)); c->st.back().ip++;
            vector<u64> parts; if (n > 1) parts.push_back(n - 1); if (n > 2) parts.push_back(n / 2); if (n > 3) parts.push_back(1); if (n > 0) parts.push_back(0);
            for (u64 q : parts) { State* d = new State(s); g_st.forks++; d->env.faultsLeft--; d->env.log.push_back("write=" + to_string(q) + " of " + to_string(n)); if (doWrite(*d, q)) { d->st.back().ip++; work.emplace_back(d); } else delete d; } }
        if (!doWrite(s, n)) return 0; return 2; }
    case N_SMAX: case N_SMIN: case N_UMAX: case N_UMIN: { E x = toE(a[0], w), y = toE(a[1], w); E c = F.intr == N_SMAX ? mkSlt(y, x) : F.intr == N_SMIN ? mkSlt(x, y) : F.intr == N_UMAX ? mkUlt(y, x) : mkUlt(x, y); return ret(fromE(mkIte(c, x, y))); }
    case N_ABS: { E x = toE(a[0], w); return ret(fromE(mkIte(mkSlt(x, mkC(w, 0)), mkSub(mkC(w, 0), x), x))); }
    case N_BSWAP: { E x = toE(a[0], w); E r = mkExtract(x, 0, 8); for (int i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); return ret(fromE(r)); }
    case N_FSHL: case N_FSHR: { if (w > 32) break; E c = mkAnd(mkZext(toE(a[2], w), 2 * w), mkC(2 * w, w - 1)); E x = mkConcat(toE(a[0], w), toE(a[1], w)); return ret(fromE(F.intr == N_FSHL ? mkExtract(mkShl(x, c), w, w) : mkExtract(mkLShr(x, c), 0, w))); }
    case N_CTPOP: { E x = toE(a[0], w), r = mkC(w, 0); for (int i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), w)); return ret(fromE(r)); }
    case N_USUBSAT: { E x = toE(a[0], w), y = toE(a[1], w); return ret(fromE(mkIte(mkUlt(x, y), mkC(w, 0), mkSub(x, y)))); }
    }
    finish(s, ST_UNSUPPORTED, Val(), "unsupported external function " + F.name); return 0;
}
bool Exec::run(State& s) {
    u64 tick = 0;
    for (;;) {
        if (s.st.empty()) { finish(s, ST_RETURN, Val(), ""); return false; }
        Frame& f = s.st.back(); Fn& F = M->fns[f.fn]; Ins& I = F.bbs[f.bb].ins[f.ip];
        if (++s.steps > in.cfg.maxSteps) { finish(s, ST_LIMIT, Val(), "step limit in " + where(s)); return false; }
        if ((++tick & 63) == 0 && elapsed() > in.cfg.maxTime) { finish(s, ST_LIMIT, Val(), "time limit in " + where(s)); stop = true; return false; }
        g_st.instrs++;
        auto V = [&](int i) -> Val { const Opd& o = I.o[i]; return o.reg >= 0 ? f.r[o.reg] : Val(o.c); };
        switch (I.op) {
        case I_BIN: { Val a = V(0), b = V(1); if (!a.e && !b.e) f.r[I.dst] = Val(foldBin(I.sub, I.w, a.c, b.c)); else f.r[I.dst] = fromE(mkBin(I.sub, toE(a, I.w), toE(b, I.w))); f.ip++; break; }
        case I_SHIFT: { Val a = V(0), b = V(1); u64 m = I.w - 1; bool p2 = !(I.w & (I.w - 1));
            if (!b.e) { if (b.c >= (u64)I.w) b.c = p2 ? b.c & m : 0; if (!a.e) { f.r[I.dst] = Val(foldBin(I.sub, I.w, a.c, b.c)); f.ip++; break; } }
            else if (p2) b = fromE(mkAnd(b.e, mkC(I.w, m)));
            f.r[I.dst] = fromE(mkBin(I.sub, toE(a, I.w), toE(b, I.w))); f.ip++; break; }
        case I_DIV: { Val a = V(0), b = V(1); bool sg = I.sub == O_SDIV || I.sub == O_SREM;
            if (b.e) { E z = mkEq(b.e, mkC(I.w, 0)); ModelP mf, mt; int r = s.pc.branch(z, mf, mt); if (r & 4) { finish(s, ST_UNKNOWN, Val(), "solver unknown (div) in " + where(s)); return false; }
                if (r == 3) { State* c = clone(s); c->pc.model = mt; c->pc.addKnown(z); finish(*c, ST_DIVZERO, Val(), "division by zero in " + where(s)); work.pop_back(); s.pc.model = mf; s.pc.addKnown(mkNot(z)); }
                else if (r == 2) { finish(s, ST_DIVZERO, Val(), "division by zero in " + where(s)); return false; } }
            else if (!b.c) { finish(s, ST_DIVZERO, Val(), "division by zero in " + where(s)); return false; }
            if (sg) { E ov = mkAnd(mkEq(toE(a, I.w), mkC(I.w, 1ull << (I.w - 1))), mkEq(toE(b, I.w), mkC(I.w, ~0ull)));
                if (!ov->isC() || ov->val) { ModelP mf, mt; int r = s.pc.branch(ov, mf, mt); if (r & 4) { finish(s, ST_UNKNOWN, Val(), "solver unknown (div)"); return false; } if (r & 2) { State* c = clone(s); c->pc.model = mt; c->pc.addKnown(ov); finish(*c, ST_DIVZERO, Val(), "division overflow in " + where(s)); work.pop_back(); if (r == 2) return false; s.pc.model = mf; s.pc.addKnown(mkNot(ov)); } } }
            if (!a.e && !b.e) f.r[I.dst] = Val(foldBin(I.sub, I.w, a.c, b.c)); else f.r[I.dst] = fromE(mkBin(I.sub, toE(a, I.w), toE(b, I.w))); f.ip++; break; }
        case I_ICMP: { Val a = V(0), b = V(1); if (!a.e && !b.e) f.r[I.dst] = Val(foldBin(I.sub, I.w2, a.c, b.c) ^ I.neg); else { E e = mkBin(I.sub, toE(a, I.w2), toE(b, I.w2)); f.r[I.dst] = fromE(I.neg ? mkNot(e) : e); } f.ip++; break; }
        case I_SELECT: { Val c = V(0); if (!c.e) f.r[I.dst] = c.c ? V(1) : V(2); else f.r[I.dst] = fromE(mkIte(c.e, toE(V(1), I.w), toE(V(2), I.w))); f.ip++; break; }
        case I_ZEXT: { Val a = V(0); f.r[I.dst] = a.e ? fromE(mkZext(a.e, I.w)) : a; f.ip++; break; }
        case I_SEXT: { Val a = V(0); f.r[I.dst] = a.e ? fromE(mkSext(a.e, I.w)) : Val((u64)sx(a.c, I.w2) & msk(I.w)); f.ip++; break; }
        case I_TRUNC: { Val a = V(0); f.r[I.dst] = a.e ? fromE(mkTrunc(a.e, I.w)) : Val(a.c & msk(I.w)); f.ip++; break; }
        case I_MOV: f.r[I.dst] = V(0); f.ip++; break;
        case I_GEP: { Val p = V(0); u64 c = I.imm; bool sym = p.e; for (auto& g : I.gi) { Val x = g.o.reg >= 0 ? f.r[g.o.reg] : Val(g.o.c); if (x.e) sym = true; else c += (u64)(sx(x.c, g.w) * g.scale); }
            if (!sym) f.r[I.dst] = Val((p.c + c) & msk(M->ptrw));
            else { E e = mkAdd(toE(p, M->ptrw), mkC(M->ptrw, c)); for (auto& g : I.gi) { Val x = g.o.reg >= 0 ? f.r[g.o.reg] : Val(g.o.c); if (x.e) { E xe = x.e->w < M->ptrw ? mkSext(x.e, M->ptrw) : mkTrunc(x.e, M->ptrw); e = mkAdd(e, mkMul(xe, mkC(M->ptrw, (u64)g.scale))); } } f.r[I.dst] = fromE(e); }
            f.ip++; break; }
        case I_LOAD: { int n = (I.w + 7) / 8; ObjP* o; E off; u64 lo, hi; if (!resolve(s, V(0), n, o, off, lo, hi, false)) return false;
            Val v = lo == hi ? (*o)->load(lo, n) : (*o)->loadSym(off, n, lo, hi); if (I.w < n * 8) v = v.e ? fromE(mkTrunc(v.e, I.w)) : Val(v.c & msk(I.w)); s.st.back().r[I.dst] = v; s.st.back().ip++; break; }
        case I_VAARG: { int n = (I.w + 7) / 8; ObjP* o; E off; u64 lo, hi; if (!resolve(s, V(0), 2, o, off, lo, hi, true) || lo != hi) return false; // 16-bit targets: the list is a pointer to the next argument
            Val p = (*o)->load(lo, 2); if (p.e) { u64 c; if (!concretize(s, p.e, c)) return false; p = Val(c); } wobj(*o)->store(lo, 2, Val((p.c + ((n + 1) & ~1)) & 0xffff), 16);
            if (!resolve(s, p, n, o, off, lo, hi, false)) return false; Val v = (*o)->load(lo, n); if (I.w < n * 8) v = v.e ? fromE(mkTrunc(v.e, I.w)) : Val(v.c & msk(I.w)); s.st.back().r[I.dst] = v; s.st.back().ip++; break; }
        case I_STORE: { int n = (I.w + 7) / 8; ObjP* o; E off; u64 lo, hi; Val v = V(0); if (!resolve(s, V(1), n, o, off, lo, hi, true)) return false; Obj* ob = wobj(*o);
            if (lo == hi) ob->store(lo, n, v, I.w); else ob->storeSym(off, n, v, I.w, lo, hi); s.st.back().ip++; break; }
        case I_ALLOCA: { Val n = V(0); u64 k = n.c; if (n.e) { if (!concretize(s, n.e, k)) return false; } if (I.imm * k > (1u << 26)) { finish(s, ST_MEMERR, Val(), "stack overflow in " + where(s)); return false; }
            u64 b = alloc(s, I.imm * k, "local of " + F.name, 0xCD, f.id); s.st.back().r[I.dst] = Val(b); s.st.back().ip++; break; }
        case I_BR: jump(s, I.bb1); break;
        case I_CBR: { Val c = V(0); if (!c.e) { jump(s, c.c ? I.bb1 : I.bb2); break; }
            ModelP mf, mt; int r = s.pc.branch(c.e, mf, mt);
            if (r & 4) { finish(s, ST_UNKNOWN, Val(), "solver unknown (branch) in " + where(s)); return false; }
            if (r == 3) { State* n = clone(s); n->pc.model = mf; n->pc.addKnown(mkNot(c.e)); jump(*n, I.bb2); s.pc.model = mt; s.pc.addKnown(c.e); jump(s, I.bb1); }
            else if (r == 2) jump(s, I.bb1); else jump(s, I.bb2);
            break; }
        case I_SWITCH: { Val c = V(0); if (!c.e) { int t = I.bb1; for (auto& k : I.sw) if (k.v == c.c) { t = k.bb; break; } jump(s, t); break; }
            vector<pair<int, E>> tg; E none = mkBool(true); for (auto& k : I.sw) { E e = mkEq(c.e, mkC(I.w2, k.v)); none = mkAnd(none, mkNot(e)); bool fnd = false; for (auto& t : tg) if (t.first == k.bb) { t.second = mkOr(t.second, e); fnd = true; } if (!fnd) tg.push_back({k.bb, e}); }
            bool fnd = false; for (auto& t : tg) if (t.first == I.bb1) { t.second = mkOr(t.second, none); fnd = true; } if (!fnd) tg.push_back({I.bb1, none});
            vector<pair<int, pair<E, ModelP>>> feas; bool unk = false; for (auto& t : tg) { if (t.second->isC() && !t.second->val) continue; ModelP m; Res r = s.pc.check(t.second, &m); if (r == R_SAT) feas.push_back({t.first, {t.second, m}}); else if (r == R_UNKNOWN) unk = true; }
            if (unk || feas.empty()) { finish(s, ST_UNKNOWN, Val(), "solver unknown (switch) in " + where(s)); return false; }
            for (size_t i = 1; i < feas.size(); i++) { State* n = clone(s); n->pc.model = feas[i].second.second; n->pc.addKnown(feas[i].second.first); jump(*n, feas[i].first); }
            s.pc.model = feas[0].second.second; s.pc.addKnown(feas[0].second.first); jump(s, feas[0].first); break; }
        case I_RET: { Val v = I.o.empty() ? Val() : V(0); int rw = I.o.empty() ? 0 : I.ow[0];
            if (s.st.size() == 1) { if (in.isMain) finish(s, ST_EXIT, v, "return"); else { finish(s, ST_RETURN, Val(), ""); out.paths.back()->ret = v; out.paths.back()->retw = rw; } return false; }
            doRet(s, v); break; }
        case I_CALL: {
            int ci = I.callee; size_t na = I.o.size(); vector<Val> a;
            if (ci < 0) { na--; Val t = V(na); u64 v = t.c; if (t.e && !concretize(s, t.e, v)) return false; auto it = M->fnByAddr.find(v); if (it == M->fnByAddr.end()) { finish(s, ST_MEMERR, Val(), "call through bad pointer in " + where(s)); return false; } ci = it->second; }
            Fn& G = M->fns[ci]; a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(V(i));
            if (G.decl) { int r = native(s, I, G, a); if (r == 0) return false; s.st.back().ip++; break; }
            if (s.st.size() > 4000) { finish(s, ST_MEMERR, Val(), "stack overflow (recursion) in " + where(s)); return false; }
            Frame nf; nf.fn = ci; nf.r.resize(G.nregs); nf.dst = I.dst; nf.objMark = s.objs.size(); nf.bumpMark = s.bump; nf.id = ++s.frameId;
            for (size_t i = 0; i < na; i++) { if (i < G.argw.size()) nf.r[i] = a[i]; else { nf.va.push_back(a[i]); nf.vaw.push_back(I.ow[i]); } }
            s.st.push_back(move(nf)); break; }
        case I_UNREACH: finish(s, ST_ABORT, Val(), "unreachable executed in " + where(s)); return false;
        default: finish(s, ST_UNSUPPORTED, Val(), "unsupported instruction in " + where(s)); return false;
        }
    }
}
void Exec::go() {
    auto it = M->fnIdx.find(in.fn);
    if (it == M->fnIdx.end() || M->fns[it->second].decl) { out.complete = false; out.why = "no function " + in.fn; return; }
    auto s = make_unique<State>(); s->objs = M->objs; s->bump = M->bump; s->pc = in.pc; s->env = in.env;
    for (auto& g : in.globals) { ObjP* o = nullptr; for (auto& x : s->objs) if (x->name == g.first) o = &x; if (!o) { out.complete = false; out.why = "no global " + g.first; return; } Obj* w = wobj(*o); for (size_t i = 0; i < g.second.size() && i < w->size; i++) w->setByteVal(i, g.second[i]); }
    Frame f; f.fn = it->second; Fn& F = M->fns[f.fn]; f.r.resize(F.nregs); f.objMark = s->objs.size(); f.id = 1;
    vector<Val> args = in.args;
    if (in.isMain) { // argc, argv
        vector<u64> ps; for (auto& a : in.argvBytes) { u64 p = alloc(*s, a.size() + 1, "argv string", 0, 0); Obj* o = s->objs.back().get(); for (size_t i = 0; i < a.size(); i++) o->setByteVal(i, a[i]); ps.push_back(p); }
        u64 av = alloc(*s, (ps.size() + 1) * 8, "argv", 0, 0); Obj* o = s->objs.back().get(); for (size_t i = 0; i < ps.size(); i++) o->store(i * 8, 8, Val(ps[i]), 64);
        args = {Val(ps.size()), Val(av)};
    }
    for (size_t i = 0; i < args.size(); i++) { if (i < F.argw.size()) f.r[i] = args[i]; else { f.va.push_back(args[i]); f.vaw.push_back(M->ptrw == 16 ? 16 : 32); } }
    s->st.push_back(f); work.push_back(move(s));
    while (!work.empty() && !stop) {
        if (out.paths.size() >= in.cfg.maxPaths) { out.complete = false; out.why = "path limit"; break; }
        auto st = move(work.back()); work.pop_back(); run(*st);
    }
    if (!work.empty()) { out.complete = false; if (out.why.empty()) out.why = "time limit"; }
}
void modRun(Mod* m, RunIn& in, RunOut& out) { Exec x(m, in, out); x.go(); }

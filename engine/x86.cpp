// Symbolic 8086 reference model, written from the Intel 8086 Family User's Manual.
#include "x86.h"
#include <chrono>
#include <set>
using namespace std;
namespace {
enum LK : u8 { L_NONE, L_ADD, L_SUB, L_LOGIC, L_INC, L_DEC };
struct XR { E r[12]; E f[9]; u32 ip; int undef = 0; LK lk = L_NONE; int lw = 0; E la = nullptr, lb = nullptr, lc = nullptr, lr = nullptr; };
struct XS : XR { ObjP mem; PathCond pc; Env env; u64 steps = 0; int conc = 0; };
struct PW { E a; u64 lo, hi; int n; E v; }; // memory write of the current instruction, committed at its end
struct Trap {}; // path ended
struct X {
    XIn& in; XOut& out; vector<unique_ptr<XS>> work; XS* s = nullptr; unique_ptr<XS> save; chrono::steady_clock::time_point t0; set<u32> stops;
    X(XIn& i, XOut& o) : in(i), out(o) { t0 = chrono::steady_clock::now(); stops.insert(i.stops.begin(), i.stops.end()); }
    // decoding state
    int seg; int rep; u32 ip0; u8 mod, reg, rm; E ea; int eaSeg;
    void finish(int st, Val code, const string& msg) {
        auto* p = new PathResult(); p->status = st; p->code = code; p->msg = msg; p->pc = s->pc; p->env = s->env; p->steps = s->steps; p->ip = s->ip;
        for (int i = 0; i < 12; i++) p->regs[i] = s->r[i];
        for (int i = 0; i < 9; i++) p->flags[i] = flag(i);
        if (in.keepMem) p->objs.push_back(s->mem);
        if (st >= ST_LIMIT && st <= ST_UNSUPPORTED) { out.complete = false; if (out.why.empty()) out.why = msg; }
        out.paths.push_back(p);
    }
    [[noreturn]] void end(int st, Val code = Val(), const string& msg = "") { finish(st, code, msg); throw Trap(); }
    string at() { char b[32]; snprintf(b, 32, " at ip=%04X", ip0); return b; }
    // fork helper: `undo` is the state before the current instruction; the sibling re-executes it
    XR pre; vector<PW> pend;
    void sibling(E c, ModelP m) { g_st.forks++; auto n = make_unique<XS>(*s); *(XR*)n.get() = pre; n->pc.model = m; n->pc.addKnown(c); work.push_back(move(n)); }
    void commit() { for (auto& p : pend) { Obj* o = wmem(); if (p.lo == p.hi) { if (p.n == 2) o->store(p.lo, 2, fromE(p.v), 16); else o->setByteVal(p.lo, fromE(p.v)); } else o->storeSym(p.a, p.n, fromE(p.v), p.n * 8, p.lo, p.hi); } pend.clear(); }
    bool decide(E c) { // fork on a condition
        ModelP mf, mt; int k = s->pc.branch(c, mf, mt);
        if (k & 4) end(ST_UNKNOWN, Val(), "solver unknown" + at());
        if (k == 3) { sibling(mkNot(c), mf); s->pc.model = mt; s->pc.addKnown(c); return true; }
        if (k == 2) return true; return false;
    }
    u64 conc(E e) {
        if (e->isC()) return e->val;
        u64 v = evalE(e, *s->pc.model); E c = mkEq(e, mkC(e->w, v)); ModelP m; Res r = s->pc.check(mkNot(c), &m);
        if (r == R_UNKNOWN) end(ST_UNKNOWN, Val(), "solver unknown" + at());
        if (r == R_SAT) { if (++s->conc > in.cfg.maxConc) end(ST_LIMIT, Val(), "too many concretizations" + at()); sibling(mkNot(c), m); }
        s->pc.addKnown(c); return v;
    }
    E undef() { return mkVar(in.undefPrefix + to_string(s->undef++), 1); }
    // ---- memory
    Obj* wmem() { if (s->mem.use_count() > 1) s->mem = make_shared<Obj>(*s->mem); return s->mem.get(); }
    E lin(int sg, E off) { E sgv = s->r[sg]; if (sgv->isC() && off->isC()) return mkC(20, (sgv->val << 4) + off->val); return mkAdd(mkConcat(sgv, mkC(4, 0)), mkZext(off, 20)); }
    void range(E a, u64& lo, u64& hi) {
        lo = a->lo; hi = a->hi;
        if (hi - lo > 32 && !symRange(s->pc, a, lo, hi, in.cfg.maxRange)) end(ST_UNKNOWN, Val(), "solver unknown (address)" + at());
    }
    E ld8(int sg, E off) {
        E a = lin(sg, off); if (a->isC()) return toE(s->mem->byte(a->val), 8);
        u64 lo, hi; range(a, lo, hi); if (hi - lo > in.cfg.maxRange) { u64 v = conc(a); return toE(s->mem->byte(v), 8); }
        return toE(s->mem->loadSym(a, 1, lo, hi), 8);
    }
    E ld16(int sg, E off) {
        E a = lin(sg, off);
        if (a->isC() && a->val < 0xFFFFF && !(off->isC() && off->val == 0xFFFF)) return toE(s->mem->load(a->val, 2), 16);
        E l = ld8(sg, off), h = ld8(sg, mkAdd(off, mkC(16, 1))); return mkConcat(h, l);
    }
    void st8(int sg, E off, E v) {
        E a = lin(sg, off); if (a->isC()) { pend.push_back({a, a->val, a->val, 1, v}); return; }
        u64 lo, hi; range(a, lo, hi); if (hi - lo > in.cfg.maxRange) lo = hi = conc(a);
        pend.push_back({a, lo, hi, 1, v});
    }
    void st16(int sg, E off, E v) {
        E a = lin(sg, off);
        if (a->isC() && a->val < 0xFFFFF && !(off->isC() && off->val == 0xFFFF)) { pend.push_back({a, a->val, a->val, 2, v}); return; }
        E hiOff = mkAdd(off, mkC(16, 1)); E b1 = mkExtract(v, 8, 8), b0 = mkExtract(v, 0, 8);
        if (!a->isC()) { u64 lo, hi; range(a, lo, hi); if (hi - lo > in.cfg.maxRange) { conc(off); E o2 = mkC(16, evalE(off, *s->pc.model)); hiOff = mkAdd(o2, mkC(16, 1)); off = o2; } }
        st8(sg, off, b0); st8(sg, hiOff, b1);
    }
    E ld(int sg, E off, int w) { return w == 8 ? ld8(sg, off) : ld16(sg, off); }
    void st(int sg, E off, E v, int w) { if (w == 8) st8(sg, off, v); else st16(sg, off, v); }
    // ---- registers
    E g8(int i) { return i < 4 ? mkExtract(s->r[i], 0, 8) : mkExtract(s->r[i - 4], 8, 8); }
    void s8(int i, E v) { if (i < 4) s->r[i] = mkConcat(mkExtract(s->r[i], 8, 8), v); else s->r[i - 4] = mkConcat(v, mkExtract(s->r[i - 4], 0, 8)); }
    E gr(int i, int w) { return w == 8 ? g8(i) : s->r[i]; }
    void sr(int i, E v, int w) { if (w == 8) s8(i, v); else s->r[i] = v; }
    // ---- flags
    E pf(E r) { E x = mkExtract(r, 0, 1); for (int i = 1; i < 8; i++) x = mkXor(x, mkExtract(r, i, 1)); return mkNot(x); }
    E flag(int i) {
        if (s->f[i]) return s->f[i];
        int w = s->lw; E a = s->la, b = s->lb, c = s->lc, r = s->lr; E v = nullptr;
        switch (i) {
        case F_ZF: v = mkEq(r, mkC(w, 0)); break;
        case F_SF: v = mkExtract(r, w - 1, 1); break;
        case F_PF: v = pf(r); break;
        case F_CF: if (s->lk == L_ADD) v = c->isC() && !c->val ? mkUlt(r, a) : mkExtract(mkAdd(mkAdd(mkZext(a, w + 1), mkZext(b, w + 1)), mkZext(c, w + 1)), w, 1);
            else if (s->lk == L_SUB) v = c->isC() && !c->val ? mkUlt(a, b) : mkUlt(mkZext(a, w + 1), mkAdd(mkZext(b, w + 1), mkZext(c, w + 1))); else v = mkC(1, 0); break;
        case F_OF: if (s->lk == L_ADD || s->lk == L_INC) v = mkExtract(mkAnd(mkXor(a, r), mkXor(b, r)), w - 1, 1); else if (s->lk == L_SUB || s->lk == L_DEC) v = mkExtract(mkAnd(mkXor(a, b), mkXor(a, r)), w - 1, 1); else v = mkC(1, 0); break;
        case F_AF: if (s->lk == L_LOGIC) v = undef(); else v = mkExtract(mkXor(mkXor(a, b), r), 4, 1); break;
        default: v = mkC(1, 0);
        }
        return s->f[i] = v;
    }
    E flagLT() { // SF != OF
        if (!s->f[F_SF] && !s->f[F_OF] && s->lk == L_SUB && s->lc->isC() && !s->lc->val) return mkSlt(s->la, s->lb);
        return mkXor(flag(F_SF), flag(F_OF)); }
    void lazy(LK k, int w, E a, E b, E c, E r) { if (k == L_INC || k == L_DEC) flag(F_CF); E cf = s->f[F_CF]; for (int i = 0; i <= F_OF; i++) s->f[i] = nullptr; if (k == L_INC || k == L_DEC) s->f[F_CF] = cf; s->lk = k; s->lw = w; s->la = a; s->lb = b; s->lc = c; s->lr = r; }
    E alu(int op, E a, E b, int w, bool& wb) {
        wb = true; E z = mkC(1, 0), r;
        switch (op) {
        case 0: r = mkAdd(a, b); lazy(L_ADD, w, a, b, z, r); return r;
        case 2: { E c = flag(F_CF); r = mkAdd(mkAdd(a, b), mkZext(c, w)); lazy(L_ADD, w, a, b, c, r); return r; }
        case 5: r = mkSub(a, b); lazy(L_SUB, w, a, b, z, r); return r;
        case 7: r = mkSub(a, b); lazy(L_SUB, w, a, b, z, r); wb = false; return r;
        case 3: { E c = flag(F_CF); r = mkSub(mkSub(a, b), mkZext(c, w)); lazy(L_SUB, w, a, b, c, r); return r; }
        case 1: r = mkOr(a, b); break; case 4: r = mkAnd(a, b); break; default: r = mkXor(a, b); break;
        }
        lazy(L_LOGIC, w, a, b, z, r); return r;
    }
    E cond(int c) {
        E v;
        switch (c >> 1) {
        case 0: v = flag(F_OF); break; case 1: v = flag(F_CF); break; case 2: v = flag(F_ZF); break; case 3: { E cf = flag(F_CF), zf = flag(F_ZF); v = mkOr(cf, zf); break; }
        case 4: v = flag(F_SF); break; case 5: v = flag(F_PF); break; case 6: v = flagLT(); break; default: { E lt = flagLT(); v = mkOr(flag(F_ZF), lt); } }
        return c & 1 ? mkNot(v) : v;
    }
    E getFlags() { E v = mkC(4, 0xF); // bits 15..12
        v = mkConcat(v, flag(F_OF)); v = mkConcat(v, flag(F_DF)); v = mkConcat(v, flag(F_IF)); v = mkConcat(v, flag(F_TF)); v = mkConcat(v, flag(F_SF)); v = mkConcat(v, flag(F_ZF)); v = mkConcat(v, mkC(1, 0)); v = mkConcat(v, flag(F_AF)); v = mkConcat(v, mkC(1, 0)); v = mkConcat(v, flag(F_PF)); v = mkConcat(v, mkC(1, 1)); v = mkConcat(v, flag(F_CF)); return v; }
    void setFlags(E v, bool lowOnly) { for (int i = 0; i < 9; i++) flag(i); auto b = [&](int i) { return mkExtract(v, i, 1); };
        s->f[F_CF] = b(0); s->f[F_PF] = b(2); s->f[F_AF] = b(4); s->f[F_ZF] = b(6); s->f[F_SF] = b(7); if (!lowOnly) { s->f[F_TF] = b(8); s->f[F_IF] = b(9); s->f[F_DF] = b(10); s->f[F_OF] = b(11); } }
    void allFlags() { for (int i = 0; i < 9; i++) flag(i); }
    // ---- fetch
    E fetchE() { E b = toE(s->mem->byte(((s->r[CS]->val << 4) + s->ip) & 0xFFFFF), 8); s->ip = (s->ip + 1) & 0xFFFF; return b; }
    u8 fetch() { return conc(fetchE()); }
    E fetch16() { E l = fetchE(), h = fetchE(); return mkConcat(h, l); }
    void modrm() {
        u8 m = fetch(); mod = m >> 6; reg = m >> 3 & 7; rm = m & 7; ea = nullptr; if (mod == 3) return;
        E d; eaSeg = DS;
        if (mod == 0 && rm == 6) { ea = fetch16(); }
        else {
            E b = nullptr;
            switch (rm) { case 0: b = mkAdd(s->r[BX], s->r[SI]); break; case 1: b = mkAdd(s->r[BX], s->r[DI]); break; case 2: b = mkAdd(s->r[BP], s->r[SI]); eaSeg = SS; break; case 3: b = mkAdd(s->r[BP], s->r[DI]); eaSeg = SS; break;
                case 4: b = s->r[SI]; break; case 5: b = s->r[DI]; break; case 6: b = s->r[BP]; eaSeg = SS; break; case 7: b = s->r[BX]; break; }
            if (mod == 1) { d = mkSext(fetchE(), 16); b = mkAdd(b, d); } else if (mod == 2) { d = fetch16(); b = mkAdd(b, d); }
            ea = b;
        }
        if (seg >= 0) eaSeg = seg;
    }
    E grm(int w) { return mod == 3 ? gr(rm, w) : ld(eaSeg, ea, w); }
    void srm(E v, int w) { if (mod == 3) sr(rm, v, w); else st(eaSeg, ea, v, w); }
    void push(E v) { s->r[SP] = mkSub(s->r[SP], mkC(16, 2)); st16(SS, s->r[SP], v); }
    E pop() { E v = ld16(SS, s->r[SP]); s->r[SP] = mkAdd(s->r[SP], mkC(16, 2)); return v; }
    void jumpTo(E t) {
        if (in.codeHi && !t->isC()) { E ok = mkUlt(mkSub(t, mkC(16, in.codeLo)), mkC(16, in.codeHi - in.codeLo)); for (u32 x : stops) ok = mkOr(ok, mkEq(t, mkC(16, x))); if (!decide(ok)) end(ST_HALT, Val(), "jumps outside the program" + at()); }
        s->ip = conc(t);
    }
    void interrupt(int n);
    void dos();
    void shift(int op, E cnt8, bool one, int w);
    void grp3(int w);
    void strOp(u8 op);
    void step();
    void runState();
    void go();
};
void X::shift(int op, E cnt, bool one, int w) {
    E a = grm(w);
    // counts are 8 bits wide and are not masked on the 8086
    E c = mkZext(cnt, 32); E res, cf; E a32 = mkZext(a, 32); E sa = mkSext(a, 32); E one32 = mkC(32, 1);
    E zero = mkEq(cnt, mkC(8, 0)); E C = flag(F_CF);
    allFlags();
    E of1 = nullptr;
    switch (op) {
    case 0: case 1: { // ROL ROR
        E n = mkAnd(c, mkC(32, w - 1)); E wide = mkOr(a32, mkShl(a32, mkC(32, w)));
        if (op == 0) { E rot = mkLShr(wide, mkSub(mkC(32, w), n)); res = mkTrunc(rot, w); cf = mkExtract(res, 0, 1); of1 = mkXor(mkExtract(res, w - 1, 1), cf); }
        else { res = mkTrunc(mkLShr(wide, n), w); cf = mkExtract(res, w - 1, 1); of1 = mkXor(mkExtract(res, w - 1, 1), mkExtract(res, w - 2, 1)); }
        break; }
    case 2: case 3: { // RCL RCR through w+1 bits, at 64 bits wide
        E n = mkURem(mkZext(cnt, 64), mkC(64, w + 1)); E v = mkZext(mkConcat(C, a), 64); E wide = mkOr(v, mkShl(v, mkC(64, w + 1))); E rot;
        if (op == 2) rot = mkLShr(wide, mkSub(mkC(64, w + 1), n)); else rot = mkLShr(wide, n);
        res = mkTrunc(rot, w); cf = mkExtract(rot, w, 1);
        of1 = op == 2 ? mkXor(mkExtract(res, w - 1, 1), cf) : mkXor(mkExtract(res, w - 1, 1), mkExtract(res, w - 2, 1)); break; }
    case 4: case 6: { E t = mkShl(mkZext(a, 64), mkZext(c, 64)); res = mkTrunc(t, w); cf = mkExtract(t, w, 1); of1 = mkXor(mkExtract(res, w - 1, 1), cf); break; }
    case 5: { E t = mkLShr(mkShl(a32, one32), c); cf = mkExtract(t, 0, 1); res = mkTrunc(mkLShr(a32, c), w); of1 = mkExtract(a, w - 1, 1); break; }
    default: { E t = mkAShr(mkShl(sa, one32), c); cf = mkExtract(t, 0, 1); res = mkTrunc(mkAShr(sa, c), w); of1 = mkC(1, 0); break; }
    }
    srm(mkIte(zero, a, res), w);
    E ofv = one ? of1 : mkIte(mkEq(cnt, mkC(8, 1)), of1, undef());
    auto upd = [&](int i, E v) { s->f[i] = mkIte(zero, s->f[i], v); };
    upd(F_CF, cf); upd(F_OF, ofv);
    if (op >= 4) { upd(F_ZF, mkEq(res, mkC(w, 0))); upd(F_SF, mkExtract(res, w - 1, 1)); upd(F_PF, pf(res)); upd(F_AF, undef()); }
}
void X::grp3(int w) {
    modrm(); E a = grm(w);
    switch (reg) {
    case 0: case 1: { E b = w == 8 ? fetchE() : fetch16(); bool wb; alu(4, a, b, w, wb); break; }
    case 2: srm(mkNot(a), w); break;
    case 3: { E z = mkC(w, 0); E r = mkSub(z, a); lazy(L_SUB, w, z, a, mkC(1, 0), r); srm(r, w); break; }
    case 4: case 5: { E x = w == 8 ? g8(0) : s->r[AX]; E p = reg == 4 ? mkMul(mkZext(x, 2 * w), mkZext(a, 2 * w)) : mkMul(mkSext(x, 2 * w), mkSext(a, 2 * w));
        E lo = mkTrunc(p, w), hi = mkExtract(p, w, w); E c = reg == 4 ? mkNot(mkEq(hi, mkC(w, 0))) : mkNot(mkEq(p, mkSext(lo, 2 * w)));
        lo = mkMul(x, a); // the low half does not depend on signedness
        if (w == 8) s->r[AX] = p; else { s->r[AX] = lo; s->r[DX] = hi; }
        s->f[F_CF] = s->f[F_OF] = c; s->f[F_SF] = undef(); s->f[F_ZF] = undef(); s->f[F_AF] = undef(); s->f[F_PF] = undef(); break; }
    case 6: case 7: { E num = w == 8 ? s->r[AX] : mkConcat(s->r[DX], s->r[AX]); int W = 2 * w;
        if (decide(mkEq(a, mkC(w, 0)))) end(ST_DIVZERO, Val(), "divide by zero" + at());
        E d = reg == 6 ? mkZext(a, W) : mkSext(a, W); E q = reg == 6 ? mkUDiv(num, d) : mkSDiv(num, d), r = reg == 6 ? mkURem(num, d) : mkSRem(num, d);
        E qs = mkTrunc(q, w); E ovf;
        if (reg == 6) ovf = mkNot(mkEq(q, mkZext(qs, W))); else { ovf = mkNot(mkEq(q, mkSext(qs, W))); // the most negative quotient is fine on every CPU since the 80186
            E ov2 = mkAnd(mkEq(num, mkC(W, 1ull << (W - 1))), mkEq(d, mkC(W, ~0ull))); ovf = mkOr(ovf, ov2); }
        if (decide(ovf)) end(ST_DIVZERO, Val(), "divide overflow" + at());
        if (w == 8) s->r[AX] = mkConcat(mkTrunc(r, 8), qs); else { s->r[AX] = qs; s->r[DX] = mkTrunc(r, 16); }
        for (int i = 0; i <= F_OF; i++) s->f[i] = undef(); break; }
    }
}
void X::strOp(u8 op) {
    int w = op & 1 ? 16 : 8; E n = mkC(16, w / 8); E df = flag(F_DF); E d = mkIte(df, mkSub(mkC(16, 0), n), n); int src = seg >= 0 ? seg : DS;
    bool cmp = (op & 0xFE) == 0xA6 || (op & 0xFE) == 0xAE;
    if (rep) { if (decide(mkEq(s->r[CX], mkC(16, 0)))) return; s->r[CX] = mkSub(s->r[CX], mkC(16, 1)); }
    bool wb;
    switch (op & 0xFE) {
    case 0xA4: st(ES, s->r[DI], ld(src, s->r[SI], w), w); s->r[SI] = mkAdd(s->r[SI], d); s->r[DI] = mkAdd(s->r[DI], d); break;
    case 0xA6: { E a = ld(src, s->r[SI], w), b = ld(ES, s->r[DI], w); alu(7, a, b, w, wb); s->r[SI] = mkAdd(s->r[SI], d); s->r[DI] = mkAdd(s->r[DI], d); break; }
    case 0xAA: st(ES, s->r[DI], gr(0, w), w); s->r[DI] = mkAdd(s->r[DI], d); break;
    case 0xAC: sr(0, ld(src, s->r[SI], w), w); s->r[SI] = mkAdd(s->r[SI], d); break;
    case 0xAE: alu(7, gr(0, w), ld(ES, s->r[DI], w), w, wb); s->r[DI] = mkAdd(s->r[DI], d); break;
    }
    if (rep) { if (cmp) { E z = flag(F_ZF); if (!decide(rep == 0xF3 ? z : mkNot(z))) return; } s->ip = ip0; } // run the instruction again
}
void X::dos() {
    E axE = s->r[AX]; u8 ah = conc(mkExtract(axE, 8, 8)); auto setc = [&](bool c) { flag(F_CF); s->f[F_CF] = mkC(1, c); };
    auto str = [&](E off, char term) { string r; u16 o = conc(off); for (int i = 0; i < 300; i++) { u8 c = conc(ld8(DS, mkC(16, o + i))); if (c == (u8)term) return r; r += (char)c; } return r; };
    Env& e = s->env; allFlags();
    switch (ah) {
    case 0x02: e.out.push_back(fromE(g8(DX))); break;
    case 0x09: { string t = str(s->r[DX], '$'); for (char c : t) e.out.push_back(Val((u8)c)); break; }
    case 0x4C: end(ST_EXIT, fromE(g8(0)));
    case 0x3C: case 0x3D: { string n = str(s->r[DX], 0); FileP f = e.find(n);
        if (ah == 0x3C) { f = make_shared<OutFile>(); e.setFile(n, f); } else if (!f) { s->r[AX] = mkC(16, 2); setc(true); break; }
        int fd = 5; while (fd < (int)e.fds.size() && e.fds[fd].open) fd++; if (fd >= (int)e.fds.size()) e.fds.resize(fd + 1); Fd& d = e.fds[fd]; d.f = f; d.name = n; d.pos = 0; d.open = true; d.wr = true; s->r[AX] = mkC(16, fd); setc(false); break; }
    case 0x3E: { u32 fd = conc(s->r[BX]); if (fd < 5) { setc(false); break; } if (fd >= e.fds.size() || !e.fds[fd].open) { s->r[AX] = mkC(16, 6); setc(true); break; } e.fds[fd].open = false; e.fds[fd].f.reset(); setc(false); break; }
    case 0x3F: { u32 fd = conc(s->r[BX]); u32 n = conc(s->r[CX]); if (fd >= e.fds.size() || !e.fds[fd].open) { s->r[AX] = mkC(16, 6); setc(true); break; }
        Fd& d = e.fds[fd]; u32 k = d.pos < d.f->data.size() ? min<size_t>(n, d.f->data.size() - d.pos) : 0; u32 o = conc(s->r[DX]); for (u32 i = 0; i < k; i++) st8(DS, mkC(16, o + i), toE(d.f->data[d.pos + i], 8)); s->env.fds[fd].pos += k; s->r[AX] = mkC(16, k); setc(false); break; }
    case 0x40: { u32 fd = conc(s->r[BX]); u32 n = conc(s->r[CX]); u32 o = conc(s->r[DX]);
        if (fd == 1 || fd == 2) { for (u32 i = 0; i < n; i++) e.out.push_back(fromE(ld8(DS, mkC(16, o + i)))); s->r[AX] = mkC(16, n); setc(false); break; }
        if (fd >= e.fds.size() || !e.fds[fd].open) { s->r[AX] = mkC(16, 6); setc(true); break; }
        Fd& d = e.fds[fd]; FileP f = e.wrFile(d); if (f->data.size() < d.pos + n) f->data.resize(d.pos + n); for (u32 i = 0; i < n; i++) f->data[d.pos + i] = fromE(ld8(DS, mkC(16, o + i))); d.pos += n; s->r[AX] = mkC(16, n); setc(false); break; }
    case 0x30: s->r[AX] = mkC(16, 2); break;
    default: { char b[40]; snprintf(b, 40, "INT 21h AH=%02X", ah); end(ST_UNSUPPORTED, Val(), b + at()); }
    }
}
void X::interrupt(int n) {
    if (in.dos && n == 0x20) end(ST_EXIT, Val(0));
    if (in.dos && n == 0x21) { dos(); return; }
    char b[40]; snprintf(b, 40, "INT %02Xh", n); end(ST_UNSUPPORTED, Val(), b + at());
}
void X::step() {
    seg = -1; rep = 0; ip0 = s->ip; u8 op;
    for (;;) { op = fetch(); if (op == 0x26) seg = ES; else if (op == 0x2E) seg = CS; else if (op == 0x36) seg = SS; else if (op == 0x3E) seg = DS; else if (op == 0xF2 || op == 0xF3) rep = op; else if (op == 0xF0) {} else break; }
    bool wb; int w = op & 1 ? 16 : 8;
    auto rel8 = [&]() { E d = mkSext(fetchE(), 16); return mkAdd(mkC(16, s->ip), d); };
    auto imm = [&](int w) { return w == 8 ? fetchE() : fetch16(); };
    if (op < 0x40 && (op & 7) < 6) { int o = op >> 3;
        if ((op & 7) < 4) { modrm(); E a = (op & 2) ? gr(reg, w) : grm(w), b = (op & 2) ? grm(w) : gr(reg, w); E r = alu(o, a, b, w, wb); if (wb) { if (op & 2) sr(reg, r, w); else srm(r, w); } }
        else { E b = imm(w); E r = alu(o, gr(0, w), b, w, wb); if (wb) sr(0, r, w); }
        return; }
    if (op < 0x20 && (op & 7) >= 6) { int sg = ES + (op >> 3 & 3); if ((op & 7) == 6) push(s->r[sg]); else { if (sg == CS) end(ST_UNSUPPORTED, Val(), "POP CS"); s->r[sg] = pop(); } return; }
    if (op >= 0x40 && op < 0x50) { int i = op & 7; E a = s->r[i], one = mkC(16, 1); E r = op < 0x48 ? mkAdd(a, one) : mkSub(a, one); lazy(op < 0x48 ? L_INC : L_DEC, 16, a, one, mkC(1, 0), r); s->r[i] = r; return; }
    if (op >= 0x50 && op < 0x58) { int i = op & 7; if (i == SP) { E v = mkSub(s->r[SP], mkC(16, 2)); push(v); } else push(s->r[i]); return; }
    if (op >= 0x58 && op < 0x60) { int i = op & 7; E v = pop(); s->r[i] = v; return; }
    if (op >= 0x70 && op < 0x80) { E t = rel8(); u32 next = s->ip; if (decide(cond(op & 15))) jumpTo(t); else s->ip = next; return; }
    if (op >= 0xB0 && op < 0xB8) { s8(op & 7, fetchE()); return; }
    if (op >= 0xB8 && op < 0xC0) { s->r[op & 7] = fetch16(); return; }
    if (op >= 0x91 && op < 0x98) { swap(s->r[AX], s->r[op & 7]); return; }
    switch (op) {
    case 0x80: case 0x81: case 0x82: case 0x83: { modrm(); E a = grm(w); E b = op == 0x81 ? fetch16() : op == 0x83 ? mkSext(fetchE(), 16) : fetchE(); E r = alu(reg, a, b, w, wb); if (wb) srm(r, w); return; }
    case 0x84: case 0x85: modrm(); { E a = grm(w), b = gr(reg, w); alu(4, a, b, w, wb); } return;
    case 0x86: case 0x87: { modrm(); E a = grm(w), b = gr(reg, w); if (mod == 3) { sr(rm, b, w); sr(reg, a, w); } else { srm(b, w); sr(reg, a, w); } return; }
    case 0x88: case 0x89: modrm(); srm(gr(reg, w), w); return;
    case 0x8A: case 0x8B: modrm(); sr(reg, grm(w), w); return;
    case 0x8C: modrm(); srm(s->r[ES + (reg & 3)], 16); return;
    case 0x8D: modrm(); if (mod == 3) end(ST_UNSUPPORTED, Val(), "LEA reg"); s->r[reg] = ea; return;
    case 0x8E: modrm(); { E v = grm(16); if ((reg & 3) == 1) end(ST_UNSUPPORTED, Val(), "MOV CS"); s->r[ES + (reg & 3)] = v; } return;
    case 0x8F: { modrm(); E v = pop(); srm(v, 16); return; }
    case 0x90: return;
    case 0x98: s->r[AX] = mkSext(g8(0), 16); return;
    case 0x99: s->r[DX] = mkSext(mkExtract(s->r[AX], 15, 1), 16); return;
    case 0x9A: { E o = fetch16(), sg = fetch16(); push(s->r[CS]); push(mkC(16, s->ip)); u32 c = conc(sg); jumpTo(o); s->r[CS] = mkC(16, c); return; }
    case 0x9B: return;
    case 0x9C: push(getFlags()); return;
    case 0x9D: setFlags(pop(), false); return;
    case 0x9E: setFlags(mkZext(g8(4), 16), true); return;
    case 0x9F: s8(4, mkExtract(getFlags(), 0, 8)); return;
    case 0xA0: case 0xA1: { E o = fetch16(); sr(0, ld(seg >= 0 ? seg : DS, o, w), w); return; }
    case 0xA2: case 0xA3: { E o = fetch16(); st(seg >= 0 ? seg : DS, o, gr(0, w), w); return; }
    case 0xA4: case 0xA5: case 0xA6: case 0xA7: case 0xAA: case 0xAB: case 0xAC: case 0xAD: case 0xAE: case 0xAF: strOp(op); return;
    case 0xA8: case 0xA9: { E b = imm(w); alu(4, gr(0, w), b, w, wb); return; }
    case 0xC2: { E n = fetch16(); E t = pop(); s->r[SP] = mkAdd(s->r[SP], n); jumpTo(t); return; }
    case 0xC3: { E t = pop(); jumpTo(t); return; }
    case 0xC4: case 0xC5: { modrm(); if (mod == 3) end(ST_UNSUPPORTED, Val(), "LES reg"); E o = ld16(eaSeg, ea), sg = ld16(eaSeg, mkAdd(ea, mkC(16, 2))); s->r[reg] = o; s->r[op == 0xC4 ? ES : DS] = sg; return; }
    case 0xC6: case 0xC7: { modrm(); E v = imm(w); srm(v, w); return; }
    case 0xCA: case 0xCB: { E n = op == 0xCA ? fetch16() : mkC(16, 0); E t = pop(); E c = pop(); s->r[SP] = mkAdd(s->r[SP], n); u32 cs = conc(c); jumpTo(t); s->r[CS] = mkC(16, cs); return; }
    case 0xCC: interrupt(3); return;
    case 0xCD: { u8 n = fetch(); interrupt(n); return; }
    case 0xCF: { E t = pop(), c = pop(), f = pop(); setFlags(f, false); u32 cs = conc(c); jumpTo(t); s->r[CS] = mkC(16, cs); return; }
    case 0xD0: case 0xD1: modrm(); shift(reg, mkC(8, 1), true, w); return;
    case 0xD2: case 0xD3: modrm(); shift(reg, g8(CX), false, w); return;
    case 0xD7: { E o = mkAdd(s->r[BX], mkZext(g8(0), 16)); s8(0, ld8(seg >= 0 ? seg : DS, o)); return; }
    case 0xE0: case 0xE1: case 0xE2: { E t = rel8(); u32 next = s->ip; s->r[CX] = mkSub(s->r[CX], mkC(16, 1)); E c = mkNot(mkEq(s->r[CX], mkC(16, 0))); if (op == 0xE0) c = mkAnd(c, mkNot(flag(F_ZF))); if (op == 0xE1) c = mkAnd(c, flag(F_ZF)); if (decide(c)) jumpTo(t); else s->ip = next; return; }
    case 0xE3: { E t = rel8(); u32 next = s->ip; if (decide(mkEq(s->r[CX], mkC(16, 0)))) jumpTo(t); else s->ip = next; return; }
    case 0xE8: { E d = fetch16(); push(mkC(16, s->ip)); jumpTo(mkAdd(mkC(16, s->ip), d)); return; }
    case 0xE9: { E d = fetch16(); jumpTo(mkAdd(mkC(16, s->ip), d)); return; }
    case 0xEA: { E o = fetch16(), sg = fetch16(); u32 c = conc(sg); jumpTo(o); s->r[CS] = mkC(16, c); return; }
    case 0xEB: jumpTo(rel8()); return;
    case 0xF4: end(ST_HALT);
    case 0xF5: allFlags(); s->f[F_CF] = mkNot(s->f[F_CF]); return;
    case 0xF6: case 0xF7: grp3(w); return;
    case 0xF8: case 0xF9: allFlags(); s->f[F_CF] = mkC(1, op & 1); return;
    case 0xFA: case 0xFB: allFlags(); s->f[F_IF] = mkC(1, op & 1); return;
    case 0xFC: case 0xFD: allFlags(); s->f[F_DF] = mkC(1, op & 1); return;
    case 0xFE: case 0xFF: { modrm();
        if (reg < 2) { E a = grm(w), one = mkC(w, 1); E r = reg == 0 ? mkAdd(a, one) : mkSub(a, one); lazy(reg == 0 ? L_INC : L_DEC, w, a, one, mkC(1, 0), r); srm(r, w); return; }
        if (op == 0xFE) break;
        switch (reg) {
        case 2: { E t = grm(16); push(mkC(16, s->ip)); jumpTo(t); return; }
        case 4: jumpTo(grm(16)); return;
        case 3: case 5: { if (mod == 3) break; E o = ld16(eaSeg, ea), sg = ld16(eaSeg, mkAdd(ea, mkC(16, 2))); if (reg == 3) { push(s->r[CS]); push(mkC(16, s->ip)); } u32 c = conc(sg); jumpTo(o); s->r[CS] = mkC(16, c); return; }
        case 6: { E v = mod == 3 && rm == SP ? mkSub(s->r[SP], mkC(16, 2)) : grm(16); push(v); return; }
        }
        break; }
    }
    char b[40]; snprintf(b, 40, "opcode %02X", op); end(ST_UNSUPPORTED, Val(), b + at());
}
void X::runState() {
    u64 tick = 0;
    try {
        for (;;) {
            if (s->steps && stops.count(s->ip)) { ip0 = s->ip; end(ST_STOP); }
            if (in.codeHi && (s->ip < in.codeLo || s->ip >= in.codeHi)) { ip0 = s->ip; end(ST_HALT, Val(), "leaves the program" + at()); }
            if (++s->steps > in.cfg.maxSteps) { ip0 = s->ip; end(ST_LIMIT, Val(), "8086 step limit" + at()); }
            if ((++tick & 15) == 0 && chrono::duration<double>(chrono::steady_clock::now() - t0).count() > in.cfg.maxTime) { ip0 = s->ip; end(ST_LIMIT, Val(), "8086 time limit" + at()); }
            g_st.xinstrs++;
            pre = *s; // registers to re-execute from on a fork
            step();
            commit();
        }
    } catch (Trap&) { pend.clear(); }
}
void X::go() {
    auto n = make_unique<XS>(); for (int i = 0; i < 12; i++) n->r[i] = in.regs[i]; for (int i = 0; i < 9; i++) n->f[i] = in.flags[i]; n->ip = in.ip; n->mem = in.mem; n->pc = in.pc; n->env = in.env; work.push_back(move(n));
    while (!work.empty()) {
        if (out.paths.size() >= in.cfg.maxPaths) { out.complete = false; out.why = "path limit"; break; }
        if (chrono::duration<double>(chrono::steady_clock::now() - t0).count() > in.cfg.maxTime) { out.complete = false; if (out.why.empty()) out.why = "time limit"; break; }
        auto st = move(work.back()); work.pop_back(); s = st.get(); runState(); s = nullptr;
    }
}
}
void xRun(XIn& in, XOut& out) { X x(in, out); x.go(); }

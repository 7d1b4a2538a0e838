#pragma once
#include "solver.h"
#include <array>
#include <cstring>
struct Val { u64 c; E e; Val(u64 c = 0, E e = nullptr) : c(c), e(e) {} };
static inline E toE(const Val& v, int w) { return v.e ? v.e : mkC(w, v.c); }
static inline Val fromE(E e) { return e->isC() ? Val(e->val) : Val(0, e); }
struct Cell { E e = nullptr; u8 idx = 0; };
struct Page { u8 c[256]; std::unique_ptr<std::array<Cell, 256>> sym; int nsym = 0;
    Page(u8 fill = 0) { memset(c, fill, 256); }
    Page(const Page& o) : nsym(o.nsym) { memcpy(c, o.c, 256); if (o.sym && o.nsym) sym.reset(new std::array<Cell, 256>(*o.sym)); } };
typedef std::shared_ptr<Page> PageP;
struct Obj {
    u64 base = 0, size = 0; u8 fill = 0; bool ro = false; std::string name; u32 frame = 0;
    std::vector<PageP> pages;
    Obj(u64 b, u64 sz, u8 f, const std::string& n) : base(b), size(sz), fill(f), name(n), pages((sz + 255) / 256) {}
    Page* wr(size_t pi) { PageP& p = pages[pi]; if (!p) p = std::make_shared<Page>(fill); else if (p.use_count() > 1) p = std::make_shared<Page>(*p); return p.get(); }
    Val byte(u64 off) const { const PageP& p = pages[off >> 8]; if (!p) return Val(fill); int i = off & 255;
        if (p->nsym && (*p->sym)[i].e) { Cell& c = (*p->sym)[i]; return fromE(mkExtract(c.e, c.idx * 8, 8)); } return Val(p->c[i]); }
    bool cell(u64 off, Cell& out) const { const PageP& p = pages[off >> 8]; if (!p || !p->nsym) return false; out = (*p->sym)[off & 255]; return out.e; }
    void setByte(u64 off, u8 v) { Page* p = wr(off >> 8); int i = off & 255; p->c[i] = v; if (p->nsym && (*p->sym)[i].e) { (*p->sym)[i].e = nullptr; p->nsym--; } }
    void setCell(u64 off, E e, u8 idx) { Page* p = wr(off >> 8); int i = off & 255; if (!p->sym) p->sym.reset(new std::array<Cell, 256>()); if (!(*p->sym)[i].e) p->nsym++; (*p->sym)[i].e = e; (*p->sym)[i].idx = idx; }
    void setByteVal(u64 off, const Val& v) { if (v.e) setCell(off, v.e, 0); else setByte(off, v.c); }
    Val load(u64 off, int n) const {
        u64 r = 0; bool conc = true;
        for (int i = 0; i < n; i++) { const PageP& p = pages[(off + i) >> 8]; if (!p) { r |= (u64)fill << (8 * i); continue; } int k = (off + i) & 255;
            if (p->nsym && (*p->sym)[k].e) { conc = false; break; } r |= (u64)p->c[k] << (8 * i); }
        if (conc) return Val(r);
        Cell c0; // whole value stored at once?
        if (cell(off, c0) && c0.idx == 0 && (c0.e->w + 7) / 8 == n) { bool same = true; for (int i = 1; i < n && same; i++) { Cell c; same = cell(off + i, c) && c.e == c0.e && c.idx == i; } if (same && c0.e->w == n * 8) return Val(0, c0.e); }
        E e = toE(byte(off), 8);
        for (int i = 1; i < n; i++) e = mkConcat(toE(byte(off + i), 8), e);
        return fromE(e);
    }
    void store(u64 off, int n, const Val& v, int w) {
        if (!v.e) { for (int i = 0; i < n; i++) setByte(off + i, v.c >> (8 * i)); return; }
        E e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
        if (n == 1 || e->op == O_CONCAT || e->op == O_ZEXT) { for (int i = 0; i < n; i++) setByteVal(off + i, fromE(mkExtract(e, i * 8, 8))); if (n == 1) return; }
        for (int i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (b->isC()) setByte(off + i, b->val); else setCell(off + i, e, i); }
    }
    // e == core + add as integers (no wrap within the interval of core)
    static void peel(E e, E& core, u64& add) {
        core = e; add = 0;
        if (e->op == O_ZEXT) { peel(e->a, core, add); return; }
        if (e->op == O_CONCAT && e->a->isC()) { peel(e->b, core, add); add += e->a->val << e->b->w; return; }
        if (e->op == O_ADD && (e->a->isC() || e->b->isC())) {
            E k = e->a->isC() ? e->a : e->b, o = e->a->isC() ? e->b : e->a, c; u64 ad; peel(o, c, ad);
            if (e->w > 32) return;
            u64 l = c->lo + ad + k->val, h = c->hi + ad + k->val;
            if ((l >> e->w) == (h >> e->w)) { core = c; add = ad + k->val - ((l >> e->w) << e->w); }
        }
    }
    static u64 ones(E e) { switch (e->op) { case O_CONST: return e->val; case O_CONCAT: return ones(e->a) << e->b->w | ones(e->b); case O_ZEXT: return ones(e->a); case O_OR: return ones(e->a) | ones(e->b); default: return 0; } } // bits known to be one
    // the bits of the offset that vary, most significant first; false when there are many
    static bool fewBits(E off, E& core, u64& add, std::vector<int>& bits) {
        peel(off, core, add); bits.clear(); u64 ko = ones(core); add += ko;
        for (int i = core->w - 1; i >= 0; i--) { if ((core->kz >> i & 1) || (ko >> i & 1) || (i < 63 && core->hi < (1ull << i))) continue; bits.push_back(i); if (bits.size() > 6) return false; }
        return true;
    }
    Val loadSym(E off, int n, u64 lo, u64 hi) const { // load through a symbolic offset known to lie in [lo,hi]
        E core; u64 add; std::vector<int> bits;
        if (fewBits(off, core, add, bits)) { E e = bitTree(core, add, bits, 0, n, lo, hi); if (e) return fromE(e); }
        return fromE(tree(off, n, lo, hi)); // binary decision tree over the offset
    }
    E bitTree(E core, u64 v, const std::vector<int>& bits, size_t k, int n, u64 lo, u64 hi) const { // null: no value of the offset lies in range
        if (k == bits.size()) return v < lo || v > hi ? nullptr : toE(load(v, n), n * 8);
        E l = bitTree(core, v, bits, k + 1, n, lo, hi), r = bitTree(core, v + (1ull << bits[k]), bits, k + 1, n, lo, hi);
        if (!l || l == r) return r;
        if (!r) return l;
        return mkIte(mkExtract(core, bits[k], 1), r, l);
    }
    E tree(E off, int n, u64 lo, u64 hi) const {
        if (lo == hi) return toE(load(lo, n), n * 8);
        u64 mid = lo + (hi - lo) / 2;
        E l = tree(off, n, lo, mid), r = tree(off, n, mid + 1, hi);
        if (l == r) return l;
        return mkIte(mkUle(off, mkC(off->w, mid)), l, r);
    }
    void storeSym(E off, int n, const Val& v, int w, u64 lo, u64 hi) {
        E ve = toE(v, w); if (ve->w < n * 8) ve = mkZext(ve, n * 8);
        E core; u64 add; std::vector<int> bits; bool few = fewBits(off, core, add, bits); u64 var = 0; for (int b : bits) var |= 1ull << b;
        auto at = [&](u64 p) -> E { // condition: off == p
            if (!few) return mkEq(off, mkC(off->w, p));
            u64 d = p - add; if (p < add || (d & ~var)) return mkC(1, 0);
            E c = mkC(1, 1); for (int b : bits) { E x = mkExtract(core, b, 1); c = mkAnd(c, d >> b & 1 ? x : mkNot(x)); } return c; };
        for (u64 p = lo; p <= hi + n - 1; p++) {
            E cur = toE(byte(p), 8);
            for (int i = 0; i < n; i++) { if (p < (u64)i || p - i < lo || p - i > hi) continue;
                cur = mkIte(at(p - i), mkExtract(ve, 8 * i, 8), cur); }
            setByteVal(p, fromE(cur));
        }
    }
};
typedef std::shared_ptr<Obj> ObjP;
// smallest and largest value of e under the path condition; false when the solver gave up
// stops early, with a part of the interval, once that is wider than limit
bool symRange(PathCond& pc, E e, u64& lo, u64& hi, u64 limit = ~0ull);
struct OutFile { std::vector<Val> data; };
typedef std::shared_ptr<OutFile> FileP;
struct Fd { FileP f; std::string name; size_t pos = 0; bool open = false, wr = false; };
struct Env {
    std::vector<std::pair<std::string, FileP>> files;
    std::vector<Fd> fds; // index = fd
    std::vector<Val> out; // console
    std::vector<std::string> log; // injected faults and service calls
    int faultsLeft = 0; int faultKinds = 0; int chunkForks = 0;
    FileP find(const std::string& n) const { for (auto& f : files) if (f.first == n) return f.second; return nullptr; }
    void setFile(const std::string& n, FileP p) { for (auto& f : files) if (f.first == n) { f.second = p; return; } files.push_back({n, p}); }
    FileP wrFile(Fd& fd) { // copy on write
        if (fd.f.use_count() > 2) { FileP n = std::make_shared<OutFile>(*fd.f); FileP old = fd.f; for (auto& f : files) if (f.second == old) f.second = n; for (auto& o : fds) if (o.f == old) o.f = n; }
        return fd.f; }
};
enum Status { ST_EXIT = 0, ST_RETURN = 1, ST_ASSERT = 2, ST_ABORT = 3, ST_MEMERR = 4, ST_DIVZERO = 5, ST_LIMIT = 6, ST_UNKNOWN = 7, ST_UNSUPPORTED = 8, ST_HALT = 9, ST_STOP = 10 };
struct PathResult {
    int status = 0; Val code; std::string msg; PathCond pc; Env env; u64 steps = 0; Val ret; int retw = 0;
    std::vector<ObjP> objs; // memory at the end (shared)
    E regs[14]; E flags[9]; u32 ip = 0; // x86
};
struct RunCfg { u64 maxSteps = 20000000; u64 maxPaths = 20000; double maxTime = 600; u64 maxRange = 1024; int maxConc = 300; };

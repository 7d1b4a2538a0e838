#include "llvmexec.h"
#include "x86.h"
#include <cstdio>
using namespace std;
extern "C" {
void* se_const(int w, u64 v) { return mkC(w, v); }
void* se_var(const char* n, int w) { return mkVar(n, w); }
void* se_bin(int op, void* a, void* b) { return mkBin(op, (E)a, (E)b); }
void* se_not(void* a) { return mkNot((E)a); }
void* se_ite(void* c, void* a, void* b) { return mkIte((E)c, (E)a, (E)b); }
void* se_extract(void* a, int off, int w) { return mkExtract((E)a, off, w); }
void* se_zext(void* a, int w) { return mkZext((E)a, w); }
void* se_sext(void* a, int w) { return mkSext((E)a, w); }
int se_width(void* a) { return ((E)a)->w; }
int se_isconst(void* a, u64* v) { if (((E)a)->isC()) { *v = ((E)a)->val; return 1; } return 0; }
int se_str(void* a, int depth, char* buf, int n) { string s = toStr((E)a, depth); snprintf(buf, n, "%s", s.c_str()); return s.size(); }
int se_support(void* a, int* out, int n) { E e = (E)a; int k = 0; for (u32 v : *e->sup) if (k < n) out[k++] = v; return e->sup->size(); }
int se_nvars() { return g_vars.size(); }
const char* se_varname(int i) { return g_vars[i].name.c_str(); }
void st_get(u64* a, double* t) { a[0] = g_st.queries; a[1] = g_st.sat; a[2] = g_st.unsat; a[3] = g_st.unknown; a[4] = g_st.cacheHits; a[5] = g_st.byteDecisions; a[6] = g_st.modelHits; a[7] = g_st.trivial; a[8] = g_st.instrs; a[9] = g_st.forks; a[10] = g_st.xinstrs; a[11] = exprCount(); *t = g_st.time; }
void set_timeout(int ms) { g_timeoutMs = ms; }
void set_dump(const char* d) { g_dumpDir = d; }
// path conditions
void* pc_new() { return new PathCond(); }
void* pc_clone(void* p) { return new PathCond(*(PathCond*)p); }
void pc_free(void* p) { delete (PathCond*)p; }
int pc_assume(void* p, void* e) { PathCond* pc = (PathCond*)p; ModelP m; Res r = pc->check((E)e, &m); if (r == R_SAT) { pc->model = m; pc->addKnown((E)e); } return r; }
int pc_check(void* p, void* e, u64* model, int n) { PathCond* pc = (PathCond*)p; ModelP m; Res r = pc->check((E)e, &m); if (r == R_SAT) for (int i = 0; i < n; i++) model[i] = m->get(i); return r; }
int pc_ncons(void* p) { return ((PathCond*)p)->cons.size(); }
void* pc_con(void* p, int i) { return ((PathCond*)p)->cons[i]; }
void pc_model(void* p, u64* model, int n) { for (int i = 0; i < n; i++) model[i] = ((PathCond*)p)->model->get(i); }
void pc_setmodel(void* p, u64* model, int n) { auto m = make_shared<Model>(); for (int i = 0; i < n; i++) m->set(i, model[i]); ((PathCond*)p)->model = m; }
u64 se_eval(void* e, u64* model, int n) { Model m; for (int i = 0; i < n; i++) m.set(i, model[i]); return evalE((E)e, m); }
int solve_all(void** es, int k, u64* model, int n) { vector<E> v; for (int i = 0; i < k; i++) v.push_back((E)es[i]); Model m; Res r = solveAll(v, &m); if (r == R_SAT) for (int i = 0; i < n; i++) model[i] = m.get(i); return r; }
// modules
void* mod_load(const char* path, char* err, int n) { string e; Mod* m = modLoad(path, e); snprintf(err, n, "%s", e.c_str()); return m; }
struct Job { RunIn in; RunOut out; };
static vector<Val> vals(u8* c, void** e, int n) { vector<Val> v(n); for (int i = 0; i < n; i++) { if (e && e[i]) v[i] = fromE((E)e[i]); else v[i] = Val(c[i]); } return v; }
void* job_new(const char* fn, int isMain) { Job* j = new Job(); j->in.fn = fn; j->in.isMain = isMain; return j; }
void job_free(void* p) { Job* j = (Job*)p; for (auto* r : j->out.paths) delete r; delete j; }
void job_arg(void* p, void* e) { ((Job*)p)->in.args.push_back(fromE((E)e)); }
void job_argv(void* p, u8* c, void** e, int n) { ((Job*)p)->in.argvBytes.push_back(vals(c, e, n)); }
static void addFile(Env& env, const char* name, u8* c, void** e, int n) { auto f = make_shared<OutFile>(); f->data = vals(c, e, n); env.setFile(name, f); }
void job_file(void* p, const char* name, u8* c, void** e, int n) { addFile(((Job*)p)->in.env, name, c, e, n); }
void job_global(void* p, const char* name, u8* c, void** e, int n) { ((Job*)p)->in.globals.push_back({name, vals(c, e, n)}); }
void job_pc(void* p, void* pc) { ((Job*)p)->in.pc = *(PathCond*)pc; }
void job_cfg(void* p, u64 steps, u64 paths, double time, u64 range, int maxConc, int faults, int kinds, int chunks, int keep) { Job* j = (Job*)p; j->in.cfg.maxSteps = steps; j->in.cfg.maxPaths = paths; j->in.cfg.maxTime = time; j->in.cfg.maxRange = range; j->in.cfg.maxConc = maxConc; j->in.env.faultsLeft = faults; j->in.env.faultKinds = kinds; j->in.env.chunkForks = chunks; j->in.keepMem = keep; }
int job_run(void* p, void* mod) { Job* j = (Job*)p; modRun((Mod*)mod, j->in, j->out); return j->out.paths.size(); }
int job_complete(void* p, char* why, int n) { Job* j = (Job*)p; snprintf(why, n, "%s", j->out.why.c_str()); return j->out.complete; }
void* job_path(void* p, int i) { return ((Job*)p)->out.paths[i]; }
// x86
struct XJob { XIn in; XOut out; };
void* xj_new() { XJob* j = new XJob(); for (int i = 0; i < 12; i++) j->in.regs[i] = mkC(16, 0); for (int i = 0; i < 9; i++) j->in.flags[i] = mkC(1, 0); j->in.mem = make_shared<Obj>(0, 1 << 20, 0, "mem"); return j; }
void xj_free(void* p) { XJob* j = (XJob*)p; for (auto* r : j->out.paths) delete r; delete j; }
void xj_reg(void* p, int i, void* e) { ((XJob*)p)->in.regs[i] = (E)e; }
void xj_flag(void* p, int i, void* e) { ((XJob*)p)->in.flags[i] = (E)e; }
void xj_ip(void* p, int ip) { ((XJob*)p)->in.ip = ip; }
void xj_mem(void* p, int addr, u8* c, void** e, int n) { XJob* j = (XJob*)p; for (int i = 0; i < n; i++) j->in.mem->setByteVal(addr + i, e && e[i] ? fromE((E)e[i]) : Val(c[i])); }
void xj_copymem(void* p, void* path) { XJob* j = (XJob*)p; j->in.mem = ((PathResult*)path)->objs[0]; }
void xj_fill(void* p, int v) { XJob* j = (XJob*)p; j->in.mem = make_shared<Obj>(0, 1 << 20, v, "mem"); }
void xj_file(void* p, const char* name, u8* c, void** e, int n) { addFile(((XJob*)p)->in.env, name, c, e, n); }
void xj_env(void* p, void* path) { ((XJob*)p)->in.env = ((PathResult*)path)->env; }
void xj_code(void* p, int lo, int hi) { ((XJob*)p)->in.codeLo = lo; ((XJob*)p)->in.codeHi = hi; }
void xj_stop(void* p, int ip) { ((XJob*)p)->in.stops.push_back(ip); }
void xj_pc(void* p, void* pc) { ((XJob*)p)->in.pc = *(PathCond*)pc; }
void xj_undef(void* p, const char* pre) { ((XJob*)p)->in.undefPrefix = pre; }
void xj_cfg(void* p, u64 steps, u64 paths, double time, u64 range, int maxConc, int dos) { XJob* j = (XJob*)p; j->in.cfg.maxSteps = steps; j->in.cfg.maxPaths = paths; j->in.cfg.maxTime = time; j->in.cfg.maxRange = range; j->in.cfg.maxConc = maxConc; j->in.dos = dos; }
int xj_run(void* p) { XJob* j = (XJob*)p; xRun(j->in, j->out); return j->out.paths.size(); }
int xj_complete(void* p, char* why, int n) { XJob* j = (XJob*)p; snprintf(why, n, "%s", j->out.why.c_str()); return j->out.complete; }
void* xj_path(void* p, int i) { return ((XJob*)p)->out.paths[i]; }
void* xp_reg(void* p, int i) { return ((PathResult*)p)->regs[i]; }
void* xp_flag(void* p, int i) { return ((PathResult*)p)->flags[i]; }
int xp_ip(void* p) { return ((PathResult*)p)->ip; }
// path results
int pr_status(void* p) { return ((PathResult*)p)->status; }
const char* pr_msg(void* p) { return ((PathResult*)p)->msg.c_str(); }
void* pr_code(void* p, int w) { return toE(((PathResult*)p)->code, w); }
int pr_codesym(void* p) { return ((PathResult*)p)->code.e != nullptr; }
u64 pr_codec(void* p) { return ((PathResult*)p)->code.c; }
void* pr_codee(void* p) { return ((PathResult*)p)->code.e; }
void* pr_ret(void* p) { PathResult* r = (PathResult*)p; return r->retw ? toE(r->ret, r->retw) : nullptr; }
u64 pr_steps(void* p) { return ((PathResult*)p)->steps; }
void* pr_pc(void* p) { return &((PathResult*)p)->pc; }
static int outv(vector<Val>& v, u8* c, void** e, int n) { for (int i = 0; i < n && i < (int)v.size(); i++) { c[i] = v[i].c; e[i] = v[i].e; } return v.size(); }
int pr_file(void* p, const char* name, u8* c, void** e, int n) { FileP f = ((PathResult*)p)->env.find(name); if (!f) return -1; return outv(f->data, c, e, n); }
int pr_out(void* p, u8* c, void** e, int n) { return outv(((PathResult*)p)->env.out, c, e, n); }
int pr_files(void* p, char* buf, int n) { string s; for (auto& f : ((PathResult*)p)->env.files) s += f.first + "\n"; snprintf(buf, n, "%s", s.c_str()); return s.size(); }
int pr_log(void* p, char* buf, int n) { string s; for (auto& f : ((PathResult*)p)->env.log) s += f + "\n"; snprintf(buf, n, "%s", s.c_str()); return s.size(); }
int pr_openfds(void* p) { int n = 0; for (auto& f : ((PathResult*)p)->env.fds) n += f.open; return n; }
int pr_mem(void* p, u64 addr, u8* c, void** e, int n) { PathResult* r = (PathResult*)p; for (auto& o : r->objs) if (addr >= o->base && addr + n <= o->base + o->size) { for (int i = 0; i < n; i++) { Val v = o->byte(addr - o->base + i); c[i] = v.c; e[i] = v.e; } return n; } return -1; }
// bytes that differ between two memory images: lists addresses where the cells are not identical
int pr_memdiff(void* pa, void* pb, u32* out, int n) { Obj& a = *((PathResult*)pa)->objs[0]; Obj& b = *((PathResult*)pb)->objs[0]; int k = 0; for (size_t i = 0; i < a.pages.size(); i++) { if (a.pages[i] == b.pages[i]) continue; for (int j = 0; j < 256; j++) { Val x = a.byte(i * 256 + j), y = b.byte(i * 256 + j); if (x.c != y.c || x.e != y.e) { if (k < n) out[k] = i * 256 + j; k++; } } } return k; }
int xj_memdiff(void* j, void* pb, u32* out, int n) { Obj& a = *((XJob*)j)->in.mem; Obj& b = *((PathResult*)pb)->objs[0]; int k = 0; for (size_t i = 0; i < a.pages.size(); i++) { if (a.pages[i] == b.pages[i]) continue; for (int q = 0; q < 256; q++) { Val x = a.byte(i * 256 + q), y = b.byte(i * 256 + q); if (x.c != y.c || x.e != y.e) { if (k < n) out[k] = i * 256 + q; k++; } } } return k; }
int mod_global(void* m, const char* n, u64* a, u64* s) { return modGlobal((Mod*)m, n, *a, *s); }
}

// Failing-input search: randomized runs of the real library against a reference model.
// It never decides a property; it only looks for a concrete failing run once an obligation failed.
// usage: w PROP SEED SECONDS  -> prints "FAIL <props>\n<text>" and exits 1, or exits 0
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <climits>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <deque>
extern "C" {
#include <mpi.h>
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Get_Version(int*, int*);
int MPI_Info_free(MPI_Info*);
int MPI_Get_address(void*, MPI_Aint*);
int MPI_Address(void*, MPI_Aint*);
int mpi_get_library_version_(char*, int*, int*);
int mpi_get_version_(int*, int*, int*);
}
using namespace std;
static char *LOG; static const size_t LOGN = 1 << 20;      // shared with the parent
struct Shared { int failed; char props[200]; char text[4000]; } *SH;
static void lg(const char *f, ...) { va_list a; va_start(a, f); size_t n = strlen(LOG); if (n > LOGN - 2000) { memmove(LOG, LOG + LOGN / 2, n - LOGN / 2 + 1); n -= LOGN / 2; } vsnprintf(LOG + n, 1500, f, a); strcat(LOG, "\n"); va_end(a); }
[[noreturn]] static void fail(const char *props, const char *f, ...) { va_list a; va_start(a, f); vsnprintf(SH->text, sizeof SH->text, f, a); snprintf(SH->props, sizeof SH->props, "%s", props); SH->failed = 1; _exit(1); }
[[noreturn]] static void failc(const char *props, const char *cond, int line, const char *f, ...) { char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); fail(props, "expected %s (w.cpp:%d): %s", cond, line, b); }
#define CHK(props, c, ...) do { if (!(c)) failc(props, #c, __LINE__, __VA_ARGS__); } while (0)
static unsigned long long RS;
static unsigned rnd() { RS = RS * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(RS >> 33); }
static int R(int lo, int hi) { return lo + (int)(rnd() % (unsigned)(hi - lo + 1)); }
static bool coin(int pct = 50) { return R(0, 99) < pct; }
// does f terminate the process abnormally (abort or exit with nonzero status)?
static bool dies(function<void()> f, bool *san = nullptr) {
  int s; pid_t p = fork();
  if (!p) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); alarm(10); f(); _exit(0); }
  waitpid(p, &s, 0);
  if (san) *san = WIFEXITED(s) && WEXITSTATUS(s) == 86;
  return !(WIFEXITED(s) && WEXITSTATUS(s) == 0);
}
#define MUSTDIE(props, text, body) do { lg("(expect termination) %s", text); bool sn = false; if (!dies([&] { body; }, &sn)) fail(props, "%s: returned instead of terminating the program", text); if (sn) fail("C23", "%s: memory error", text); } while (0)

// ---------------------------------------------------------------- datatypes
struct El { long d; int s; };
struct Ty { MPI_Datatype h = 0; vector<El> e; bool ol = 0, ou = 0; long lb = 0, ub = 0; bool committed = true, user = false; string txt;
  int size() const { int n = 0; for (auto &x : e) n += x.s; return n; }
  long ext() const { long x = ub - lb; if (ol || ou) return x; long m = 0; for (auto &y : e) m = max(m, (long)y.s); if (m && x % m) x += m - x % m; return x; } };
static vector<Ty> PRE; static Ty LBT, UBT;
static Ty pre(MPI_Datatype h, const char *n, vector<El> e, long ext) { Ty t; t.h = h; t.e = e; t.lb = 0; t.ub = ext; t.txt = n; return t; }
static void initpre() {
#define P1(H, S) PRE.push_back(pre(H, #H, {{0, (int)(S)}}, S))
  P1(MPI_CHAR, 1); P1(MPI_SIGNED_CHAR, 1); P1(MPI_WCHAR, sizeof(wchar_t)); P1(MPI_SHORT, 2); P1(MPI_INT, 4); P1(MPI_LONG, 8); P1(MPI_UNSIGNED_CHAR, 1);
  P1(MPI_UNSIGNED_SHORT, 2); P1(MPI_UNSIGNED, 4); P1(MPI_UNSIGNED_LONG, 8); P1(MPI_FLOAT, 4); P1(MPI_DOUBLE, 8); P1(MPI_LONG_DOUBLE, 16); P1(MPI_BYTE, 1); P1(MPI_PACKED, 1);
  P1(MPI_INTEGER, 4); P1(MPI_REAL, 4); P1(MPI_DOUBLE_PRECISION, 8); P1(MPI_COMPLEX, 8); P1(MPI_DOUBLE_COMPLEX, 16); P1(MPI_LOGICAL, 4); P1(MPI_CHARACTER, 1);
  P1(MPI_INTEGER1, 1); P1(MPI_INTEGER2, 2); P1(MPI_INTEGER4, 4); P1(MPI_INTEGER8, 8); P1(MPI_INTEGER16, 16); P1(MPI_REAL4, 4); P1(MPI_REAL8, 8); P1(MPI_REAL16, 16);
  P1(MPI_COMPLEX8, 8); P1(MPI_COMPLEX16, 16); P1(MPI_COMPLEX32, 32); P1(MPI_LONG_LONG_INT, 8); P1(MPI_UNSIGNED_LONG_LONG, 8); P1(MPI_OFFSET, 8);
#define P2(H, A, B) { struct S { A a; B b; }; PRE.push_back(pre(H, #H, {{0, (int)sizeof(A)}, {(long)offsetof(S, b), (int)sizeof(B)}}, sizeof(S))); }
  P2(MPI_2REAL, float, float) P2(MPI_2DOUBLE_PRECISION, double, double) P2(MPI_2INTEGER, int, int) P2(MPI_FLOAT_INT, float, int) P2(MPI_DOUBLE_INT, double, int)
  P2(MPI_LONG_INT, long, int) P2(MPI_2INT, int, int) P2(MPI_SHORT_INT, short, int) P2(MPI_LONG_DOUBLE_INT, long double, int)
  LBT.h = MPI_LB; LBT.txt = "MPI_LB"; UBT.h = MPI_UB; UBT.txt = "MPI_UB";
}
static void bounds(Ty &t) {   // natural bounds where not overridden
  if (!t.ol) { t.lb = LONG_MAX; for (auto &x : t.e) t.lb = min(t.lb, x.d); if (t.e.empty()) t.lb = 0; }
  if (!t.ou) { t.ub = LONG_MIN; for (auto &x : t.e) t.ub = max(t.ub, x.d + x.s); if (t.e.empty()) t.ub = 0; }
}
static Ty mstruct(const vector<int> &bl, const vector<long> &di, const vector<const Ty *> &ty) {
  Ty t; t.lb = LONG_MAX; t.ub = LONG_MIN; t.committed = false; t.user = true;
  for (size_t i = 0; i < bl.size(); i++) for (int j = 0; j < bl[i]; j++) {
    const Ty &o = *ty[i];
    if (o.h == MPI_LB) { t.ol = true; t.lb = min(t.lb, di[i]); continue; }
    if (o.h == MPI_UB) { t.ou = true; t.ub = max(t.ub, di[i]); continue; }
    long off = di[i] + j * o.ext();
    for (auto &x : o.e) t.e.push_back({x.d + off, x.s});
    if (o.ol) { t.ol = true; t.lb = min(t.lb, o.lb + off); }
    if (o.ou) { t.ou = true; t.ub = max(t.ub, o.ub + off); }
  }
  bounds(t);
  return t;
}
static string S(long x) { return to_string(x); }
template <class V> static string SV(const V &v) { string s = "{"; for (auto x : v) s += S(x) + ","; return s + "}"; }
static void chkty(const Ty &t) {
  int sz = -7; MPI_Aint x = 0, l = 0, u = 0, p = 0;
  lg("query %s (handle %d)", t.txt.c_str(), t.h);
  MPI_Type_size(t.h, &sz); CHK("C10,C11,C09", sz == t.size(), "size of %s is %d, want %d", t.txt.c_str(), sz, t.size());
  MPI_Type_lb(t.h, &l); CHK("C10,C11,C09", (long)l == t.lb, "lb of %s is %ld, want %ld", t.txt.c_str(), (long)l, t.lb);
  MPI_Type_ub(t.h, &u); CHK("C10,C11,C09", (long)u == t.ub, "ub of %s is %ld, want %ld", t.txt.c_str(), (long)u, t.ub);
  MPI_Type_extent(t.h, &x); CHK("C10,C11,C09", (long)x == t.ext(), "extent of %s is %ld, want %ld", t.txt.c_str(), (long)x, t.ext());
  int n = R(0, 5); MPI_Pack_size(n, t.h, MPI_COMM_WORLD, &p); CHK("C13", (long)p == (long)n * t.size(), "pack size of %d x %s is %ld, want %ld", n, t.txt.c_str(), (long)p, (long)n * t.size());
}
// a random derived type; 'disjoint' types only have non-overlapping elements with count up to 4 when spread far enough
static Ty derive(const vector<Ty> &pool, int depth);
static Ty build(int kind, const vector<Ty> &pool) {
  const Ty &o = pool[R(0, pool.size() - 1)]; Ty t; int n = R(0, 3); MPI_Datatype h = -999; long e = o.ext();
  vector<int> bl, ii; vector<MPI_Aint> dd; vector<long> dl; vector<const Ty *> ty; string tx; int b = R(0, 3);
  switch (kind) {
    case 0: for (int i = 0; i < n; i++) { bl.push_back(1); dl.push_back(i * e); ty.push_back(&o); } tx = "contiguous(" + S(n) + "," + o.txt + ")"; lg("%s", tx.c_str()); MPI_Type_contiguous(n, o.h, &h); break;
    case 1: { int st = R(-3, 6); for (int i = 0; i < n; i++) { bl.push_back(b); dl.push_back(i * e * st); ty.push_back(&o); } tx = "vector(" + S(n) + "," + S(b) + "," + S(st) + "," + o.txt + ")"; lg("%s", tx.c_str()); MPI_Type_vector(n, b, st, o.h, &h); break; }
    case 2: case 3: { long st = R(-30, 90); if (coin(5)) st = 3000000000L; for (int i = 0; i < n; i++) { bl.push_back(b); dl.push_back(i * st); ty.push_back(&o); } tx = string(kind == 2 ? "hvector(" : "create_hvector(") + S(n) + "," + S(b) + "," + S(st) + "," + o.txt + ")"; lg("%s", tx.c_str()); if (kind == 2) MPI_Type_hvector(n, b, st, o.h, &h); else MPI_Type_create_hvector(n, b, st, o.h, &h); break; }
    case 4: for (int i = 0; i < n; i++) { int c = R(0, 3), d = R(-4, 9); bl.push_back(c); ii.push_back(d); dl.push_back(d * e); ty.push_back(&o); } tx = "indexed(" + SV(bl) + SV(ii) + o.txt + ")"; lg("%s", tx.c_str()); { auto a = bl, q = ii; a.push_back(77); q.push_back(77); MPI_Type_indexed(n, a.data(), q.data(), o.h, &h); a.pop_back(); q.pop_back(); CHK("C09", a == bl && q == ii, "argument arrays changed"); } break;
    case 5: for (int i = 0; i < n; i++) { int c = R(0, 3); long d = R(-40, 90); bl.push_back(c); dd.push_back(d); dl.push_back(d); ty.push_back(&o); } tx = "hindexed(" + SV(bl) + SV(dl) + o.txt + ")"; lg("%s", tx.c_str()); { auto a = bl; auto q = dd; a.push_back(77); q.push_back(77); MPI_Type_hindexed(n, a.data(), q.data(), o.h, &h); a.pop_back(); q.pop_back(); CHK("C09", a == bl && q == dd, "argument arrays changed"); } break;
    case 6: for (int i = 0; i < n; i++) { int d = R(-4, 9); bl.push_back(b); ii.push_back(d); dl.push_back(d * e); ty.push_back(&o); } tx = "indexed_block(" + S(b) + SV(ii) + o.txt + ")"; lg("%s", tx.c_str()); { auto q = ii; q.push_back(77); MPI_Type_create_indexed_block(n, b, q.data(), o.h, &h); q.pop_back(); CHK("C09", q == ii, "argument array changed"); } break;
    default: { n = R(0, 4); vector<MPI_Datatype> th; bool data = false; for (int i = 0; i < n; i++) { const Ty *q = &pool[R(0, pool.size() - 1)]; int m = R(0, 9); if (m == 0) q = &LBT; if (m == 1) q = &UBT; int c = R(0, 2); if (m > 1 && c && q->e.size()) data = true; long d = R(-40, 90); bl.push_back(c); dd.push_back(d); dl.push_back(d); ty.push_back(q); th.push_back(q->h); }
      if (!data) { bl.push_back(1); dd.push_back(4); dl.push_back(4); ty.push_back(&PRE[4]); th.push_back(PRE[4].h); n++; }
      tx = "struct(" + SV(bl) + SV(dl) + "{"; for (auto *q : ty) tx += q->txt + ","; tx += "})"; lg("%s", tx.c_str()); auto a = bl; auto q = dd; auto w = th; a.push_back(77); q.push_back(77); w.push_back(77); MPI_Type_struct(n, a.data(), q.data(), w.data(), &h); a.pop_back(); q.pop_back(); w.pop_back(); CHK("C09", a == bl && q == dd && w == th, "argument arrays changed"); }
  }
  t = mstruct(bl, dl, ty); t.h = h; t.txt = tx; if (t.txt.size() > 300) t.txt = t.txt.substr(0, 300) + "...";
  CHK("C01,C09", h > 0, "handle %d for %s", h, tx.c_str());
  return t;
}
static Ty derive(const vector<Ty> &pool, int depth) { return build(R(0, 8), pool); }
struct Buf { unsigned char *a = 0; long lo = 0, n = 0; vector<unsigned char> old; void *p() const { return a - lo; } };
static Buf mkbuf(const Ty &t, int count, bool fill = true) {
  Buf b; long lo = 0, hi = 0; bool any = false;
  for (int i = 0; i < count; i++) for (auto &x : t.e) { long d = x.d + i * t.ext(); if (!any || d < lo) lo = d; if (!any || d + x.s > hi) hi = d + x.s; any = true; }
  b.lo = lo; b.n = hi - lo; b.a = (unsigned char *)malloc(b.n ? b.n : 1);
  for (long i = 0; i < b.n; i++) b.a[i] = rnd();
  b.old.assign(b.a, b.a + b.n); return b;
}
static bool small(const Ty &t) { for (auto &x : t.e) if (labs(x.d) > 100000) return false; return labs(t.ext()) < 100000; }
static bool overlapfree(const Ty &t, int count) { map<long, int> m; for (int i = 0; i < count; i++) for (auto &x : t.e) for (int k = 0; k < x.s; k++) if (++m[x.d + i * t.ext() + k] > 1) return false; return true; }
static El nth(const Ty &t, long i) { long c = t.e.size(); return {t.e[i % c].d + (i / c) * t.ext(), t.e[i % c].s}; }
static bool samesig(const Ty &a, int ca, const Ty &b, int cb, long n) { if (n > (long)a.e.size() * ca || n > (long)b.e.size() * cb) return false; for (long i = 0; i < n; i++) if (nth(a, i).s != nth(b, i).s) return false; return true; }
static void expect(const char *props, Buf &d, const vector<unsigned char> &want, const char *what) {
  for (long i = 0; i < d.n; i++) if (d.a[i] != want[i]) fail(props, "%s: byte at offset %ld of the buffer is %d, want %d", what, i + d.lo, d.a[i], want[i]);
}
static void same(const char *props, Buf &s, const char *what) { if (memcmp(s.a, s.old.data(), s.n)) fail(props, "%s: buffer changed", what); }
static vector<unsigned char> moved(const Buf &s, const Ty &st, const Buf &d, const Ty &dt, long n) {
  vector<unsigned char> w(d.a, d.a + d.n);
  for (long i = 0; i < n; i++) { El x = nth(st, i), y = nth(dt, i); for (int k = 0; k < y.s; k++) w[y.d + k - d.lo] = s.a[x.d + k - s.lo]; }
  return w;
}
static vector<Ty> pool(int k, bool commit) {
  vector<Ty> p; for (int i = 0; i < 3; i++) p.push_back(PRE[R(0, PRE.size() - 1)]);
  for (int i = 0; i < k; i++) { Ty t = derive(p, 0); if (t.e.size() > 60) { MPI_Type_free(&t.h); continue; } p.push_back(t); }
  for (auto &t : p) if (t.user && commit && coin(90)) { MPI_Type_commit(&t.h); t.committed = true; }
  return p;
}
static void s_types() {
  for (auto &t : PRE) if (coin(20)) chkty(t);
  vector<Ty> p = pool(R(1, 7), true);
  for (auto &t : p) chkty(t);
  for (auto &t : p) if (t.user && coin()) { MPI_Datatype h = t.h; MPI_Type_free(&h); CHK("C23,C01", h == MPI_DATATYPE_NULL, "type variable is %d after free", h); t.h = 0; }
  for (auto &t : p) if (t.h) chkty(t);
}
static void s_predef() { for (auto &t : PRE) { chkty(t); int n = R(1, 3); Buf a = mkbuf(t, n), b = mkbuf(t, n); lg("self send/recv %s", t.txt.c_str()); auto w = moved(a, t, b, t, (long)n * t.e.size()); MPI_Status s; MPI_Sendrecv(a.p(), n, t.h, 0, 1, b.p(), n, t.h, 0, 1, MPI_COMM_WORLD, &s); expect("C11,C05", b, w, t.txt.c_str()); MPI_Datatype h; MPI_Type_contiguous(2, t.h, &h); int sz; MPI_Type_size(h, &sz); CHK("C11,C09", sz == 2 * t.size(), "%s", t.txt.c_str()); } }
static void s_pack() {
  vector<Ty> p = pool(R(1, 5), true);
  for (int it = 0; it < 6; it++) {
    const Ty &t = p[R(0, p.size() - 1)]; int n = R(0, 3); if (!small(t)) continue;
    Buf a = mkbuf(t, n); int tot = t.size() * n, pos0 = R(0, 5), pos = pos0, room = R(0, 6), cap = pos0 + tot + room; if (coin(30)) cap = pos0 + tot;
    vector<unsigned char> o(cap ? cap : 1); unsigned char *ob = (unsigned char *)malloc(cap ? cap : 1); for (int i = 0; i < cap; i++) o[i] = ob[i] = rnd();
    lg("pack %d x %s at %d into %d bytes", n, t.txt.c_str(), pos, cap);
    MPI_Pack(a.p(), n, t.h, ob, cap, &pos, MPI_COMM_WORLD);
    CHK("C12,C13", pos == pos0 + tot, "position after packing %d x %s is %d, want %d", n, t.txt.c_str(), pos, pos0 + tot);
    long q = pos0; for (long i = 0; i < (long)n * (long)t.e.size(); i++) { El x = nth(t, i); for (int k = 0; k < x.s; k++) o[q++] = a.a[x.d + k - a.lo]; }
    for (int i = 0; i < cap; i++) CHK("C12", ob[i] == o[i], "packed byte %d of %s is %d, want %d", i, t.txt.c_str(), ob[i], o[i]);
    same("C12", a, "pack source");
    if (overlapfree(t, n)) { Buf b = mkbuf(t, n); pos = pos0; lg("unpack"); auto w = moved(a, t, b, t, (long)n * t.e.size()); MPI_Unpack(ob, cap, &pos, b.p(), n, t.h, MPI_COMM_WORLD); CHK("C12", pos == pos0 + tot, "position after unpacking %s", t.txt.c_str()); expect("C12", b, w, "unpack"); for (int i = 0; i < cap; i++) CHK("C12", ob[i] == o[i], "unpack changed the packed buffer"); }
    if (tot > 0) { int shortcap = pos0 + tot - 1 - R(0, min(tot - 1, 3)); unsigned char *sb = (unsigned char *)malloc(shortcap ? shortcap : 1); memset(sb, 1, shortcap);
      MUSTDIE("C12", "pack into a buffer that is too small", { int z = pos0; MPI_Pack(a.p(), n, t.h, sb, shortcap, &z, MPI_COMM_WORLD); });
      MUSTDIE("C12", "unpack from a buffer that is too small", { int z = pos0; MPI_Unpack(sb, shortcap, &z, a.p(), n, t.h, MPI_COMM_WORLD); }); free(sb); }
    free(ob);
  }
}
// ---------------------------------------------------------------- point to point
struct Op { bool send; int tag; Ty ty; int count; Buf b; MPI_Request h = 0; int comm; bool done = false, freed = false; int rtag = 0, rcount = 0; int src = 0; bool null = false; int id; bool pendingtypefreed = false; };
struct World { vector<MPI_Comm> comm; vector<deque<Op *>> sq, rq; vector<Op *> all; };
static bool isb(const Ty &t) { return t.h == MPI_BYTE || t.h == MPI_PACKED; }
static long deliver(Op *s, Op *r, vector<unsigned char> &want, bool &ok) {
  long n; ok = true; want.assign(r->b.a, r->b.a + r->b.n);
  if (isb(s->ty) && !isb(r->ty)) { int sz = r->ty.size(); int dc = r->count; if (sz > 0 && s->count / sz < dc) dc = s->count / sz; long q = 0; n = (long)dc * r->ty.e.size(); for (long i = 0; i < n; i++) { El x = nth(r->ty, i); for (int k = 0; k < x.s; k++) want[x.d + k - r->b.lo] = s->b.a[q++ - s->b.lo]; } return n; }
  if (isb(r->ty) && !isb(s->ty)) { int sz = s->ty.size(); int sc = s->count; if (sz > 0 && r->count / sz < sc) sc = r->count / sz; long q = 0; n = (long)sc * s->ty.e.size(); for (long i = 0; i < n; i++) { El x = nth(s->ty, i); for (int k = 0; k < x.s; k++) want[q++ - r->b.lo] = s->b.a[x.d + k - s->b.lo]; } return q; }
  n = min((long)s->ty.e.size() * s->count, (long)r->ty.e.size() * r->count);
  if (!samesig(s->ty, s->count, r->ty, r->count, n)) ok = false; else want = moved(s->b, s->ty, r->b, r->ty, n);
  return n;
}
static const char *PP = "C03,C04,C05,C19,C23,C24,C06,C02";
static void chkst(Op *o, MPI_Status &s, const char *how) {
  if (o->send) return;
  lg("%s -> status source=%d tag=%d", how, s.MPI_SOURCE, s.MPI_TAG);
  CHK("C06,C04,C03", s.MPI_SOURCE == (o->null ? MPI_PROC_NULL : 0), "%s: source of receive #%d is %d", how, o->id, s.MPI_SOURCE);
  CHK("C06,C04,C03", s.MPI_TAG == (o->null ? MPI_ANY_TAG : o->rtag), "%s: tag of receive #%d is %d, want %d", how, o->id, s.MPI_TAG, o->rtag);
  int c = -9, el = -9; MPI_Get_elements(&s, o->ty.h > 0 || o->ty.h < 0 ? (isb(o->ty) ? o->ty.h : MPI_INT) : MPI_INT, &el);
  CHK("C24", el == (o->null ? 0 : o->rcount), "%s: elements received by #%d is %d, want %d", how, o->id, el, o->null ? 0 : o->rcount);
  if (!o->pendingtypefreed) { int tc = o->ty.e.size(), w = o->null ? 0 : o->rcount; MPI_Get_count(&s, o->ty.h, &c); int want = tc == 0 ? 0 : w % tc ? MPI_UNDEFINED : w / tc; CHK("C24", c == want, "%s: count received by #%d is %d, want %d", how, o->id, c, want); }
}
static void chkempty(MPI_Status &s, const char *how) { CHK("C06,C07,C24", s.MPI_SOURCE == MPI_ANY_SOURCE && s.MPI_TAG == MPI_ANY_TAG, "%s: empty status has source %d tag %d", how, s.MPI_SOURCE, s.MPI_TAG); int e = 5; MPI_Get_elements(&s, MPI_INT, &e); CHK("C24,C06", e == 0, "%s: empty status has %d elements", how, e); }
static void poison(MPI_Status *s, int n = 1) { memset(s, 0x5b, n * sizeof *s); }
static bool poisoned(MPI_Status *s) { unsigned char *p = (unsigned char *)s; for (size_t i = 0; i < sizeof *s; i++) if (p[i] != 0x5b) return false; return true; }
static void complete(World &w, Op *o, MPI_Status *s, bool ign, const char *how) {
  CHK("C06,C07", o->h == MPI_REQUEST_NULL, "%s: request variable of #%d is %d after completion", how, o->id, o->h);
  if (!ign) chkst(o, *s, how);
  w.all.erase(find(w.all.begin(), w.all.end(), o));
}
static void s_p2p() {
  World w; int id = 0; int nc = R(1, 3); w.comm.push_back(MPI_COMM_WORLD); for (int i = 1; i < nc; i++) { MPI_Comm c; MPI_Comm_dup(MPI_COMM_WORLD, &c); w.comm.push_back(c); CHK("C01,C17", c > 1, "duplicate is %d", c); }
  w.sq.resize(nc); w.rq.resize(nc);
  vector<Ty> ty; bool hetero = coin(30); if (hetero) ty = pool(R(1, 4), true); else { ty.push_back(PRE[4]); ty.push_back(PRE[R(0, 14)]); }
  { MPI_Datatype h; MPI_Type_vector(2, 1, 2, MPI_INT, &h); Ty v = mstruct({1, 1}, {0, 8}, {&PRE[4], &PRE[4]}); v.h = h; v.txt = "vector(2,1,2,int)"; MPI_Type_commit(&h); v.committed = true; ty.push_back(v);
    if (coin(30)) { MPI_Type_contiguous(R(1, 2), MPI_INT, &h); int q; MPI_Type_size(h, &q); Ty u = mstruct(vector<int>(q / 4, 1), q == 8 ? vector<long>{0, 4} : vector<long>{0}, vector<const Ty *>(q / 4, &PRE[4])); u.h = h; u.txt = "uncommitted contiguous of int"; u.committed = false; ty.push_back(u); } }
  if (coin()) ty.push_back(pre(MPI_BYTE, "MPI_BYTE", {{0, 1}}, 1));
  int tags[4] = {0, 1, 2, 3}; if (coin(40)) { int b[] = {65536, 65537, 65538, 131075, 256, 257, INT_MAX, 32768, 1 << 24, 1 << 30}; for (int i = 2; i < 4; i++) tags[i] = b[R(0, 9)]; }
  int steps = R(5, 60), burst = coin(10) ? 300 : 0; vector<Ty> keep = ty;
  for (int st = 0; st < steps + burst; st++) {
    int c = R(0, nc - 1), a = R(0, 19); if (st < burst) a = R(0, 7);
    int tag = tags[R(0, 3)];
    if (a < 8) {           // isend / irecv / send / recv / ready / sendrecv
      Op *o = new Op; o->id = ++id; o->send = a < 4; o->comm = c; o->ty = ty[R(0, ty.size() - 1)]; o->count = R(0, 4); if (coin(70)) o->count = R(1, 2); if (isb(o->ty)) o->count = R(0, 20); o->tag = !o->send && coin(25) ? MPI_ANY_TAG : tag;
      if (!small(o->ty) || (!o->send && !overlapfree(o->ty, o->count))) { delete o; continue; }
      if (coin(6)) { o->null = true; }
      int rank = o->null ? MPI_PROC_NULL : (!o->send && coin(40) ? MPI_ANY_SOURCE : 0);
      o->b = mkbuf(o->ty, o->count);
      auto &mine = o->send ? w.sq[c] : w.rq[c]; auto &other = o->send ? w.rq[c] : w.sq[c];
      Op *m = nullptr; size_t mi = 0; if (!o->null) for (size_t i = 0; i < other.size(); i++) { Op *q = other[i]; Op *rr = o->send ? q : o, *ss = o->send ? o : q; if (rr->tag == MPI_ANY_TAG || rr->tag == ss->tag) { m = q; mi = i; break; } }
      vector<unsigned char> want; bool known = true; long n = 0; Op *rv = o->send ? m : o, *sn = o->send ? o : m; bool bad = false;
      if (m) { bad = !o->ty.committed || !m->ty.committed; if (!bad) n = deliver(sn, rv, want, known); }
      if (m && !bad && !known) { free(o->b.a); delete o; continue; }   // signatures differ: not a valid program
      if (!m && !o->null && coin(10)) {   // blocking call without partner must not return
        MUSTDIE("C06,C19", "blocking call without a partner", { MPI_Status s; if (o->send) MPI_Send(o->b.p(), o->count, o->ty.h, 0, o->tag, w.comm[c]); else MPI_Recv(o->b.p(), o->count, o->ty.h, 0, o->tag, w.comm[c], &s); });
        if (o->send) MUSTDIE("C19", "ready send without a posted receive", { MPI_Request q; MPI_Irsend(o->b.p(), o->count, o->ty.h, 0, o->tag, w.comm[c], &q); });
      }
      if (coin(3)) MUSTDIE("C04,C19", "operation with rank 1", { MPI_Request q; int bad = coin() ? 1 : o->send ? -1 : -3; if (o->send) MPI_Isend(o->b.p(), 1, o->ty.h, bad, o->tag, w.comm[c], &q); else MPI_Irecv(o->b.p(), 1, o->ty.h, bad, o->tag, w.comm[c], &q); });
      if (bad) { MUSTDIE("C19", "transfer with an uncommitted datatype", { MPI_Request q; if (o->send) MPI_Isend(o->b.p(), o->count, o->ty.h, 0, o->tag, w.comm[c], &q); else MPI_Irecv(o->b.p(), o->count, o->ty.h, 0, o->tag, w.comm[c], &q); }); delete o; continue; }
      if (m && m->send == false && m->pendingtypefreed) {}
      lg("%s #%d count=%d type=%s rank=%d tag=%d comm=%d%s", o->send ? "send" : "recv", o->id, o->count, o->ty.txt.c_str(), rank, o->tag, c, m ? (" (partner #" + S(m->id) + ")").c_str() : o->null ? " (null process)" : " (stays pending)");
      bool blocking = (m || o->null) && coin(35);
      MPI_Status s; poison(&s); bool ign = coin(20); MPI_Request h = -77;
      if (o->send) { if (blocking) { int k = R(0, 2); lg("  blocking"); if (k == 0) MPI_Send(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c]); else if (k == 1) MPI_Ssend(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c]); else MPI_Rsend(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c]); }
        else if ((m || o->null) && coin(30)) { lg("  irsend"); MPI_Irsend(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c], &h); } else MPI_Isend(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c], &h); }
      else { if (m || o->null) { bool f = false; if (!o->null && coin()) { int fl = -1; MPI_Iprobe(rank, o->tag, w.comm[c], &fl, &s); CHK("C08", fl == 1, "iprobe before receive #%d finds nothing", o->id); CHK("C08", s.MPI_TAG == m->tag && s.MPI_SOURCE == 0, "probe reports tag %d, want %d", s.MPI_TAG, m->tag); int pc; MPI_Get_elements(&s, m->ty.h ? MPI_INT : MPI_INT, &pc); CHK("C08,C24", pc == m->count * (int)m->ty.e.size(), "probe reports %d elements, want %d", pc, m->count * (int)m->ty.e.size()); poison(&s); (void)f; } }
        if (blocking) { lg("  blocking"); MPI_Recv(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c], ign ? MPI_STATUS_IGNORE : &s); } else MPI_Irecv(o->b.p(), o->count, o->ty.h, rank, o->tag, w.comm[c], &h); }
      if (m) { other.erase(other.begin() + mi); rv->rtag = sn->tag; rv->rcount = n; rv->done = sn->done = true; expect(PP, rv->b, want, "delivered data"); same("C05,C03", sn->b, "send buffer"); rv->b.old.assign(rv->b.a, rv->b.a + rv->b.n); }
      else { same("C04,C05,C03", o->b, "buffer of an unmatched operation"); if (o->null) o->done = true; else mine.push_back(o); }
      if (blocking) { if (!o->send) { if (!ign) chkst(o, s, "recv"); else CHK("C06", poisoned(&s), "status written"); } }
      else { CHK("C01,C03", h > 0, "request handle %d", h); for (auto *q : w.all) CHK("C01", q->h != h, "handle %d given out twice (#%d)", h, q->id); o->h = h; w.all.push_back(o); }
      // the partner's buffers of all other pending operations are unchanged
      for (auto &q : w.rq) for (auto *x : q) same("C03,C05,C04", x->b, "buffer of another pending receive");
    } else if (a < 10) {   // probe
      bool any = coin(30); int tg = any ? MPI_ANY_TAG : tag; Op *m = nullptr; for (auto *q : w.sq[c]) if (any || q->tag == tg) { m = q; break; }
      MPI_Status s; poison(&s); int f = -5; lg("iprobe tag=%d comm=%d", tg, c); MPI_Iprobe(coin() ? 0 : MPI_ANY_SOURCE, tg, w.comm[c], &f, coin(20) ? (poison(&s), MPI_STATUS_IGNORE) : &s);
      CHK("C08,C04", f == (m != nullptr), "iprobe found %d", f); if (m && !poisoned(&s)) { CHK("C08", s.MPI_SOURCE == 0 && s.MPI_TAG == m->tag, "probe reports source %d tag %d, want tag %d", s.MPI_SOURCE, s.MPI_TAG, m->tag); int e; MPI_Get_elements(&s, MPI_INT, &e); CHK("C08,C24", e == m->count * (int)m->ty.e.size(), "probe reports %d elements, want %d", e, m->count * (int)m->ty.e.size()); }
      if (m && coin()) { MPI_Probe(0, tg, w.comm[c], &s); CHK("C08", s.MPI_TAG == m->tag, "probe reports tag %d, want %d", s.MPI_TAG, m->tag); }
      if (!m && coin(30)) MUSTDIE("C08", "probe without a message", { MPI_Probe(0, tg, w.comm[c], &s); });
      if (coin(5)) MUSTDIE("C08", "probe for rank 1", { int ff; MPI_Iprobe(1, tg, w.comm[c], &ff, &s); });
    } else if (a < 12) {   // sendrecv with itself
      bool anyp = false; for (auto *q : w.rq[c]) if (q->tag == MPI_ANY_TAG) anyp = true; if (anyp) continue;
      Op s1, r1; s1.ty = PRE[4]; r1.ty = PRE[4]; s1.count = R(0, 3); r1.count = R(s1.count, 4); s1.tag = 100 + R(0, 3); r1.tag = coin(30) ? s1.tag : s1.tag; s1.b = mkbuf(s1.ty, s1.count); r1.b = mkbuf(r1.ty, r1.count); vector<unsigned char> want; bool ok; long n = deliver(&s1, &r1, want, ok); MPI_Status s; poison(&s); lg("sendrecv count=%d/%d tag=%d comm=%d", s1.count, r1.count, s1.tag, c);
      MPI_Sendrecv(s1.b.p(), s1.count, MPI_INT, 0, s1.tag, r1.b.p(), r1.count, MPI_INT, 0, r1.tag, w.comm[c], &s); expect("C05,C03", r1.b, want, "sendrecv"); r1.send = false; r1.id = 0; r1.rtag = s1.tag; r1.rcount = n; chkst(&r1, s, "sendrecv"); free(s1.b.a); free(r1.b.a);
    } else if (a == 12) {  // test on null request
      MPI_Request q = MPI_REQUEST_NULL; MPI_Status s; poison(&s); int f = -1; lg("test null"); MPI_Test(&q, &f, &s); CHK("C06", f == 1 && q == 0, "test of a null request: flag %d", f); chkempty(s, "test of a null request"); MPI_Wait(&q, coin() ? &s : MPI_STATUS_IGNORE);
    } else if (a == 13) {  // comm life
      if (coin()) { MPI_Comm q; lg("comm dup+free"); MPI_Comm_dup(w.comm[c], &q); for (auto *x : w.all) CHK("C01", x->h != q, "communicator handle %d equals live request #%d", q, x->id); int f; MPI_Status s; MPI_Iprobe(0, MPI_ANY_TAG, q, &f, &s); CHK("C17,C04", f == 0, "fresh communicator has a message"); MPI_Comm_free(&q); CHK("C17", q == MPI_COMM_NULL, "after free: %d", q); }
    } else if (a == 14) {  // type freed while pending
      MPI_Datatype h; MPI_Type_contiguous(2, MPI_INT, &h); MPI_Type_commit(&h); Op *o = new Op; o->id = ++id; o->comm = c; o->send = coin(); o->tag = 50 + R(0, 1); o->count = 1; o->ty = PRE[4]; o->ty.e = {{0, 4}, {4, 4}}; o->ty.ub = 8; o->ty.h = h; o->ty.txt = "contiguous(2,int)"; o->b = mkbuf(o->ty, 1); bool conf = false; for (auto *q : o->send ? w.rq[c] : w.sq[c]) if (q->tag == MPI_ANY_TAG || q->tag == o->tag) conf = true; if (conf) { MPI_Type_free(&h); delete o; continue; }
      lg("%s #%d tag=%d comm=%d, type freed while pending", o->send ? "isend" : "irecv", o->id, o->tag, c); if (o->send) MPI_Isend(o->b.p(), 1, h, 0, o->tag, w.comm[c], &o->h); else MPI_Irecv(o->b.p(), 1, h, 0, o->tag, w.comm[c], &o->h); MPI_Type_free(&h); CHK("C23", h == 0, "type variable %d", h); o->pendingtypefreed = true; w.all.push_back(o); (o->send ? w.sq[c] : w.rq[c]).push_back(o);
      MPI_Datatype h2; MPI_Type_contiguous(3, MPI_CHAR, &h2); MPI_Type_free(&h2);
    } else if (a == 15 && w.all.size()) {  // request free
      Op *o = w.all[R(0, w.all.size() - 1)]; lg("request_free #%d (%s)", o->id, o->done ? "complete" : "pending"); MPI_Request_free(&o->h); CHK("C23,C06", o->h == 0, "request variable %d", o->h); o->freed = true; w.all.erase(find(w.all.begin(), w.all.end(), o));
    } else if (w.all.size()) {   // completion
      int k = R(0, 9); bool ign = coin(20);
      if (k < 4) { Op *o = w.all[R(0, w.all.size() - 1)]; MPI_Status s; poison(&s); MPI_Request h0 = o->h; if (k < 2) { int f = -3; lg("test #%d", o->id); MPI_Test(&o->h, &f, ign ? MPI_STATUS_IGNORE : &s); CHK("C06,C03", f == (int)o->done, "test of #%d gives %d, want %d", o->id, f, o->done); if (f) complete(w, o, &s, ign, "test"); else CHK("C06", o->h == h0 && poisoned(&s), "incomplete request #%d changed", o->id); }
        else if (o->done) { lg("wait #%d", o->id); MPI_Wait(&o->h, ign ? MPI_STATUS_IGNORE : &s); complete(w, o, &s, ign, "wait"); } else if (coin(20)) MUSTDIE("C06,C19", "wait on an incomplete request", { MPI_Wait(&o->h, &s); });
      } else {
        int n = R(0, min<int>(w.all.size(), 6)); vector<Op *> v = w.all; for (size_t i = v.size(); i > 1; i--) swap(v[i - 1], v[R(0, i - 1)]); v.resize(n); for (int z = R(0, 2); z > 0; z--) v.insert(v.begin() + R(0, v.size()), nullptr); n = v.size();
        vector<MPI_Request> rq(n + 1, -55); vector<MPI_Status> ss(n + 1); poison(ss.data(), n + 1); for (int i = 0; i < n; i++) rq[i] = v[i] ? v[i]->h : 0; bool all = true, active = false, some = false; int first = -1; for (int i = 0; i < n; i++) if (v[i]) { active = true; if (v[i]->done) { some = true; if (first < 0) first = i; } else all = false; }
        string d = "["; for (auto *o : v) d += o ? "#" + S(o->id) + (o->done ? "+ " : "- ") : "null "; d += "]"; auto rq0 = rq; MPI_Status *sp = ign ? MPI_STATUSES_IGNORE : ss.data(); MPI_Status s1; poison(&s1);
        auto fin = [&](int i, MPI_Status *s, const char *how) { if (v[i]) { v[i]->h = rq[i]; complete(w, v[i], s, ign, how); } else { CHK("C07", rq[i] == 0, "%s: null request became %d", how, rq[i]); if (!ign) chkempty(*s, how); } };
        bool wait = coin();
        if (k < 6) { if (wait) { lg("waitall %s", d.c_str()); if (all) { MPI_Waitall(n, rq.data(), sp); for (int i = 0; i < n; i++) fin(i, &ss[i], "waitall"); } else MUSTDIE("C07,C19", "waitall with an incomplete request", { MPI_Waitall(n, rq.data(), sp); }); }
          else { int f = -3; lg("testall %s", d.c_str()); MPI_Testall(n, rq.data(), &f, sp); CHK("C07", f == (int)all, "testall %s gives %d", d.c_str(), f); if (f) for (int i = 0; i < n; i++) fin(i, &ss[i], "testall"); else CHK("C07", rq == rq0, "testall %s changed requests", d.c_str()); } }
        else if (k < 8) { int ix = -44, f = -3; if (!some && active) { if (wait) { MUSTDIE("C07,C19", "waitany without a complete request", { MPI_Waitany(n, rq.data(), &ix, &s1); }); continue; } }
          if (wait) { lg("waitany %s", d.c_str()); MPI_Waitany(n, rq.data(), &ix, ign ? MPI_STATUS_IGNORE : &s1); f = 1; } else { lg("testany %s", d.c_str()); MPI_Testany(n, rq.data(), &ix, &f, ign ? MPI_STATUS_IGNORE : &s1); }
          CHK("C07", f == (int)(some || !active), "testany %s flag %d", d.c_str(), f); CHK("C07", ix == (some ? first : MPI_UNDEFINED), "testany %s index %d, want %d", d.c_str(), ix, some ? first : MPI_UNDEFINED); if (some) { for (int i = 0; i < n; i++) if (i != first) CHK("C07", rq[i] == rq0[i], "testany %s changed request %d", d.c_str(), i); fin(first, &s1, "testany"); } else { CHK("C07", rq == rq0, "testany %s changed requests", d.c_str()); if (!active && !ign) chkempty(s1, "testany"); } }
        else { vector<int> ix(n + 1, -44); int oc = -3; if (!some && active && wait) { MUSTDIE("C07,C19", "waitsome without a complete request", { MPI_Waitsome(n, rq.data(), &oc, ix.data(), sp); }); continue; }
          lg("%s %s", wait ? "waitsome" : "testsome", d.c_str()); if (wait) MPI_Waitsome(n, rq.data(), &oc, ix.data(), sp); else MPI_Testsome(n, rq.data(), &oc, ix.data(), sp);
          int want = 0; for (int i = 0; i < n; i++) if (v[i] && v[i]->done) want++; CHK("C07", oc == (active ? want : MPI_UNDEFINED), "testsome %s count %d", d.c_str(), oc); int q = 0; for (int i = 0; i < n; i++) { if (v[i] && v[i]->done) { CHK("C07", ix[q] == i, "testsome %s index %d is %d, want %d", d.c_str(), q, ix[q], i); fin(i, &ss[q], "testsome"); q++; } else CHK("C07", rq[i] == rq0[i], "testsome %s changed request %d", d.c_str(), i); } for (; q <= n; q++) CHK("C07", ix[q] == -44, "testsome %s wrote index %d", d.c_str(), q); }
        CHK("C07", rq[n] == -55, "entry behind the request array written"); CHK("C07", poisoned(&ss[n]), "status behind the array written"); if (ign) CHK("C07", poisoned(&ss[0]) && poisoned(&s1), "ignored status written");
      }
    }
  }
  for (int i = 0; i < nc; i++) {   // remaining messages arrive in order
    while (w.sq[i].size()) { Op *m = w.sq[i].front(); if (!m->ty.committed) break; int n = m->count * m->ty.size(); vector<unsigned char> b(n + 1, 7); MPI_Status s; lg("drain #%d", m->id); if (isb(m->ty)) MPI_Recv(b.data(), m->count, MPI_BYTE, 0, MPI_ANY_TAG, w.comm[i], &s); else MPI_Recv(b.data(), n, MPI_PACKED, 0, MPI_ANY_TAG, w.comm[i], &s); CHK("C03,C02", s.MPI_TAG == m->tag, "message #%d should be next (tag %d), got tag %d", m->id, m->tag, s.MPI_TAG); long q = 0; for (long k = 0; k < (long)m->count * (long)m->ty.e.size(); k++) { El x = nth(m->ty, k); for (int z = 0; z < x.s; z++, q++) CHK("C05,C03", b[q] == m->b.a[x.d + z - m->b.lo], "drained byte %ld of #%d", q, m->id); } CHK("C05", b[q] == 7, "too many bytes"); m->done = true; w.sq[i].pop_front(); if (!m->freed) { int f = 0; MPI_Test(&m->h, &f, MPI_STATUS_IGNORE); CHK("C06,C03", f == 1, "send #%d not complete after it was received", m->id); } }
  }
  for (int i = 1; i < nc; i++) if (w.sq[i].empty() && w.rq[i].empty()) { long e0 = lseek(2, 0, SEEK_END); lg("comm_free (all its operations matched) comm=%d", i); MPI_Comm_free(&w.comm[i]); CHK("C02,C23,C17", lseek(2, 0, SEEK_END) == e0, "freeing a communicator whose operations are all matched reports pending operations"); CHK("C17", w.comm[i] == 0, "freed communicator is %d", w.comm[i]); }
}
// ---------------------------------------------------------------- collectives
static void s_coll() {
  vector<Ty> p = pool(R(1, 4), true); MPI_Comm c; MPI_Comm_dup(MPI_COMM_WORLD, &c);
  static int msg[2] = {11, 22}; MPI_Request rq; MPI_Isend(msg, 2, MPI_INT, 0, 9, c, &rq); MPI_Request rr; static int rb[2] = {1, 2}; MPI_Irecv(rb, 2, MPI_INT, 0, 8, c, &rr);
  for (int it = 0; it < 12; it++) {
    const Ty &t = p[R(0, p.size() - 1)]; if (!small(t)) continue;
    int n = R(0, 3), m = coin(70) ? n : R(0, n); int k = R(0, 11); bool inpl = coin(15); int root = 0; if (coin(8)) root = MPI_ROOT;
    if (!overlapfree(t, n)) continue;
    if (k >= 7 && k <= 10) m = n;
    int sd = R(0, 3), rd = R(0, 3); long x = t.ext(); Buf s = mkbuf(t, n), d = mkbuf(t, n);
    auto put = [&](bool v, bool bytes, Buf &b, int disp) { return v ? (void *)((char *)b.p() - (bytes ? disp : disp * x)) : b.p(); };
    const char *names[] = {"gather", "gatherv", "allgather", "allgatherv", "scatter", "scatterv", "alltoall", "reduce", "allreduce", "reduce_scatter", "scan", "alltoallv"}; string nm = names[k]; bool w = k == 11 && coin(); if (w) nm = "alltoallw";
    if (coin(15)) {   // different datatypes on the two sides, same signature
      MPI_Datatype v1, v2; int st = R(2, 4); MPI_Type_vector(2, 1, st, MPI_INT, &v1); MPI_Type_contiguous(2, MPI_INT, &v2); int cw = R(0, 1); MPI_Type_commit(cw ? &v1 : &v2);
      if (coin()) { int one = 1, zero = 0, q[16], g[16]; bool ss = coin(); MPI_Datatype ta = ss ? v1 : v2, tb = ss ? v2 : v1; MUSTDIE("C19", "collective with one uncommitted datatype", { switch (R(0, 3)) { case 0: MPI_Gather(q, 1, ta, g, 1, tb, 0, c); break; case 1: MPI_Scatter(q, 1, ta, g, 1, tb, 0, c); break; case 2: MPI_Alltoallv(q, &one, &zero, ta, g, &one, &zero, tb, c); break; default: MPI_Allgather(q, 1, ta, g, 1, tb, c); } }); }
      MPI_Type_commit(cw ? &v2 : &v1); Ty a = mstruct({1, 1}, {0, 4L * st}, {&PRE[4], &PRE[4]}), b = mstruct({1, 1}, {0, 4}, {&PRE[4], &PRE[4]}); a.h = v1; a.txt = "vector(2,1," + S(st) + ",int)"; b.h = v2; b.txt = "contiguous(2,int)"; bool sw = coin(); const Ty &st_ = sw ? b : a, &rt_ = sw ? a : b;
      int cn = R(1, 2), sdi = R(0, 2), rdi = R(0, 2), z = R(0, 6), rw; Buf s1 = mkbuf(st_, cn), d1 = mkbuf(rt_, cn); auto wt = moved(s1, st_, d1, rt_, 2L * cn); void *sp = (char *)s1.p() - sdi * st_.ext(), *rp = (char *)d1.p() - rdi * rt_.ext();
      const char *nn[] = {"gather", "gatherv", "allgather", "allgatherv", "scatter", "scatterv", "alltoallv"}; lg("%s sends %d x %s (displacement %d), receives %d x %s (displacement %d)", nn[z], cn, st_.txt.c_str(), sdi, cn, rt_.txt.c_str(), rdi); (void)rw;
      switch (z) { case 0: MPI_Gather(s1.p(), cn, st_.h, d1.p(), cn, rt_.h, 0, c); break; case 1: MPI_Gatherv(s1.p(), cn, st_.h, rp, &cn, &rdi, rt_.h, 0, c); break; case 2: MPI_Allgather(s1.p(), cn, st_.h, d1.p(), cn, rt_.h, c); break; case 3: MPI_Allgatherv(s1.p(), cn, st_.h, rp, &cn, &rdi, rt_.h, c); break;
        case 4: MPI_Scatter(s1.p(), cn, st_.h, d1.p(), cn, rt_.h, 0, c); break; case 5: MPI_Scatterv(sp, &cn, &sdi, st_.h, d1.p(), cn, rt_.h, 0, c); break; default: MPI_Alltoallv(sp, &cn, &sdi, st_.h, rp, &cn, &rdi, rt_.h, c); }
      expect("C14", d1, wt, nn[z]); same("C14", s1, nn[z]); free(s1.a); free(d1.a); MPI_Type_free(&v1); MPI_Type_free(&v2);
    }
    if (coin(20)) { lg("bcast %s", t.txt.c_str()); MPI_Bcast(s.p(), n, t.h, coin(80) ? 0 : MPI_ROOT, c); MPI_Barrier(c); same("C14", s, "bcast"); MUSTDIE("C15", "bcast with bad root", { MPI_Bcast(s.p(), n, t.h, coin() ? 1 : -1, c); }); }
    bool rooted = k == 0 || k == 1 || k == 4 || k == 5 || k == 7; bool rbuf = k == 4 || k == 5; if (!rooted) root = 0;
    auto call = [&](void *sb, int sc, void *rb, int rc, int rt) {
      int sds = sd, rds = rd;
      switch (k) {
        case 0: MPI_Gather(sb, sc, t.h, rb, rc, t.h, rt, c); break;
        case 1: MPI_Gatherv(sb, sc, t.h, rb, &rc, &rds, t.h, rt, c); break;
        case 2: MPI_Allgather(sb, sc, t.h, rb, rc, t.h, c); break;
        case 3: MPI_Allgatherv(sb, sc, t.h, rb, &rc, &rds, t.h, c); break;
        case 4: MPI_Scatter(sb, sc, t.h, rb, rc, t.h, rt, c); break;
        case 5: MPI_Scatterv(sb, &sc, &sds, t.h, rb, rc, t.h, rt, c); break;
        case 6: MPI_Alltoall(sb, sc, t.h, rb, rc, t.h, c); break;
        case 7: MPI_Reduce(sb, rb, rc, t.h, MPI_SUM, rt, c); break;
        case 8: MPI_Allreduce(sb, rb, rc, t.h, MPI_MAX, c); break;
        case 9: MPI_Reduce_scatter(sb, rb, &rc, t.h, MPI_SUM, c); break;
        case 10: MPI_Scan(sb, rb, rc, t.h, MPI_SUM, c); break;
        case 11: if (!w) MPI_Alltoallv(sb, &sc, &sds, t.h, rb, &rc, &rds, t.h, c); else { MPI_Datatype th = t.h; MPI_Alltoallw(sb, &sc, &sds, &th, rb, &rc, &rds, &th, c); } break;
      } };
    void *sb = put(k == 5 || k == 11, w, s, sd), *rb2 = put(k == 1 || k == 3 || k == 11, w, d, rd);
    lg("%s %d->%d x %s sdisp=%d rdisp=%d root=%d%s", nm.c_str(), n, m, t.txt.c_str(), sd, rd, root, inpl ? " in place" : "");
    if (!t.committed && !inpl && root == 0) { MUSTDIE("C19", "collective with an uncommitted datatype", { call(sb, n, rb2, m, root); }); continue; }
    if (inpl) { if (k == 7 || rooted) root = 0; if (rbuf) { call(sb, n, MPI_IN_PLACE, m, root); same("C15", s, nm.c_str()); } else { call(MPI_IN_PLACE, n, rb2, m, root); same("C15,C14", d, nm.c_str()); } }
    else if (root == MPI_ROOT) { call(sb, n, rb2, m, root); same("C15", d, nm.c_str()); same("C15", s, nm.c_str()); }
    else { auto want = moved(s, t, d, t, (long)m * t.e.size()); call(sb, n, rb2, m, root); expect("C14,C05", d, want, nm.c_str()); same("C14,C05", s, nm.c_str());
      if (rooted) MUSTDIE("C15", (nm + " with bad root").c_str(), { call(sb, n, rb2, m, coin() ? 1 : MPI_PROC_NULL); });
      if (t.e.size() && k <= 6) MUSTDIE("C19", (nm + " receiving more than sent").c_str(), { Buf big = mkbuf(t, n + 1); call(sb, n, put(k == 1 || k == 3, false, big, rd), n + 1, root); }); }
    free(s.a); free(d.a);
  }
  int f, g[2] = {0, 0}; MPI_Status s; MPI_Test(&rq, &f, &s); CHK("C14", f == 0, "pending send completed by a collective"); MPI_Test(&rr, &f, &s); CHK("C14", f == 0 && rb[0] == 1, "pending receive completed by a collective"); MPI_Recv(g, 2, MPI_INT, 0, 9, c, &s); CHK("C14", g[0] == 11 && g[1] == 22, "pending message changed");
}
// ---------------------------------------------------------------- handles
static void s_handles() {
  int n = coin(20) ? R(256, 1400) : coin(3) ? 70000 : R(1, 300); vector<MPI_Comm> c; vector<MPI_Request> q; vector<int *> buf; vector<MPI_Datatype> t; vector<int> tn; set<int> live = {1};
  auto add = [&](int h, const char *w) { CHK("C01", h > 0, "%s handle %d", w, h); CHK("C01", live.insert(h).second, "%s handle %d is already live", w, h); };
  MPI_Comm qc; MPI_Comm_dup(MPI_COMM_WORLD, &qc); add(qc, "comm");
  for (int i = 0; i < n; i++) {
    int k = n > 5000 ? (coin(97) ? 0 : 9) : R(0, 7);
    if (k == 0 || k == 9) { MPI_Comm h; MPI_Comm_dup(MPI_COMM_WORLD, &h); add(h, "comm"); c.push_back(h); }
    else if (k <= 2) { MPI_Request h; int *b = (int *)malloc(8); b[0] = q.size(); b[1] = 7; if (q.size() > 800) continue; MPI_Isend(b, 2, MPI_INT, 0, (int)q.size(), qc, &h); add(h, "request"); q.push_back(h); buf.push_back(b); }
    else if (k <= 4) { MPI_Datatype h; int m = R(1, 9); MPI_Type_contiguous(m, MPI_INT, &h); add(h, "type"); t.push_back(h); tn.push_back(m); }
    else if (k == 5 && c.size()) { int j = R(0, c.size() - 1); live.erase(c[j]); MPI_Comm_free(&c[j]); c.erase(c.begin() + j); }
    else if (k == 6 && t.size()) { int j = R(0, t.size() - 1); live.erase(t[j]); MPI_Type_free(&t[j]); t.erase(t.begin() + j); tn.erase(tn.begin() + j); }
    else if (t.size()) { int j = R(0, t.size() - 1), s; MPI_Type_size(t[j], &s); CHK("C01,C10", s == 4 * tn[j], "type handle %d has size %d, want %d", t[j], s, 4 * tn[j]); }
    lg("step %d: %zu comms %zu requests %zu types live", i, c.size(), q.size(), t.size());
    LOG[0] = 0;
  }
  for (size_t j = 0; j < t.size(); j++) { int s; MPI_Type_size(t[j], &s); CHK("C01", s == 4 * tn[j], "type handle %d has size %d, want %d", t[j], s, 4 * tn[j]); }
  for (auto h : c) if (c.size() < 2000 || coin(5)) { int f; MPI_Status s; MPI_Iprobe(0, MPI_ANY_TAG, h, &f, &s); CHK("C01,C04", !f, "message on communicator %d", h); int v = 3, z = 0; MPI_Request r; MPI_Isend(&v, 1, MPI_INT, 0, 1, h, &r); MPI_Recv(&z, 1, MPI_INT, 0, 1, h, &s); CHK("C01", z == 3, "communicator %d lost a message", h); MPI_Wait(&r, &s); }
  for (size_t j = 0; j < q.size(); j++) { int f; MPI_Status s; MPI_Test(&q[j], &f, &s); CHK("C01", !f, "pending request %d is complete", q[j]); int z[2] = {-1, -1}; MPI_Recv(z, 2, MPI_INT, 0, j, qc, &s); CHK("C01,C02", z[0] == (int)j && z[1] == 7, "message %zu arrived as %d", j, z[0]); MPI_Test(&q[j], &f, &s); CHK("C01", f == 1, "request not complete"); }
}
// ---------------------------------------------------------------- groups, communicators, topology, environment
static void s_group() {
  const int ONE = 1; MPI_Group g[2]; MPI_Comm_group(MPI_COMM_WORLD, &g[0]); g[1] = MPI_GROUP_EMPTY; MPI_Group n; MPI_Comm_group(MPI_COMM_NULL, &n); CHK("C16,C17", n == MPI_GROUP_NULL, "group of the null communicator is %d", n); CHK("C16", g[0] == ONE && g[0] != g[1], "group of world is %d", g[0]);
  auto full = [&](MPI_Group x) { CHK("C16", x == g[0] || x == g[1], "result group %d", x); return x == g[0]; };
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { MPI_Group r = -9; lg("groups %d %d", a, b); MPI_Group_union(g[a], g[b], &r); CHK("C16", full(r) == (!a || !b), "union"); MPI_Group_intersection(g[a], g[b], &r); CHK("C16", full(r) == (!a && !b), "intersection"); MPI_Group_difference(g[a], g[b], &r); CHK("C16", full(r) == (!a && b), "difference"); }
  for (int i = 0; i < 40; i++) {
    int a = R(0, 1), k = R(0, 3); vector<int> rk(k + 1, 0); for (int j = 0; j < k; j++) rk[j] = coin(70) ? 0 : R(-3, 3); rk[k] = R(0, 1); MPI_Group r = -9; bool die = !a && k > 0 && !(k == 1 && rk[0] == 0); auto c = rk; string d = SV(vector<int>(rk.begin(), rk.begin() + k)); lg("incl group %d ranks %s", a, d.c_str());
    if (die) MUSTDIE("C16", ("incl " + d).c_str(), { MPI_Group_incl(g[a], k, rk.data(), &r); }); else { MPI_Group_incl(g[a], k, rk.data(), &r); CHK("C16", full(r) == (!a && k == 1), "incl %s of group %d", d.c_str(), a); CHK("C16", rk == c, "ranks changed"); }
    int (*rg)[3] = (int(*)[3])malloc((k + 1) * 12); bool first = true; for (int j = 0; j < k; j++) { rg[j][0] = coin(80) ? 0 : R(-2, 2); rg[j][1] = coin(80) ? 0 : R(-2, 2); rg[j][2] = R(-2, 3); if (rg[j][2] == 0) rg[j][2] = 1; } (void)first;
    if (!(k == 1 && rg[0][0] == 0 && rg[0][1] != 0)) { bool dd = !a && k > 0 && !(k == 1 && rg[0][0] == 0 && rg[0][1] == 0); lg("range_incl group %d k=%d", a, k); if (dd) MUSTDIE("C16", "range_incl", { MPI_Group_range_incl(g[a], k, rg, &r); }); else { MPI_Group_range_incl(g[a], k, rg, &r); CHK("C16", full(r) == (!a && k == 1), "range_incl of group %d", a); } }
    int b = R(0, 1); vector<int> z(k), o(k + 1, -77); bool zero = true; for (int j = 0; j < k; j++) { z[j] = coin(85) ? 0 : R(-2, 2); if (z[j]) zero = false; } lg("translate %d->%d %s", a, b, SV(z).c_str()); if (k && (a || !zero)) MUSTDIE("C16", "translate_ranks", { MPI_Group_translate_ranks(g[a], k, z.data(), g[b], o.data()); }); else { MPI_Group_translate_ranks(g[a], k, z.data(), g[b], o.data()); for (int j = 0; j < k; j++) CHK("C16", o[j] == (b ? MPI_UNDEFINED : 0), "translated rank %d is %d", j, o[j]); CHK("C16", o[k] == -77, "wrote past the results"); }
    MPI_Group x = g[a]; MPI_Group_free(&x); CHK("C16", x == MPI_GROUP_NULL, "freed group"); CHK("C16,C22", MPI_Group_f2c(MPI_Group_c2f(g[a])) == g[a], "f2c");
  }
  MPI_Group r; MUSTDIE("C16", "union with null", { MPI_Group_union(0, g[0], &r); }); MUSTDIE("C16", "union with null", { MPI_Group_union(g[1], 0, &r); }); MUSTDIE("C16", "intersection with null", { MPI_Group_intersection(0, g[1], &r); }); MUSTDIE("C16", "intersection with null", { MPI_Group_intersection(g[0], 0, &r); }); MUSTDIE("C16", "difference with null", { MPI_Group_difference(g[0], 0, &r); }); MUSTDIE("C16", "difference with null", { MPI_Group_difference(0, g[1], &r); }); MUSTDIE("C16", "incl of null", { MPI_Group_incl(0, 0, 0, &r); }); MUSTDIE("C16", "range_incl of null", { MPI_Group_range_incl(0, 0, 0, &r); }); MUSTDIE("C16", "translate null", { MPI_Group_translate_ranks(0, 0, 0, g[0], 0); });  MUSTDIE("C16", "translate null", { MPI_Group_translate_ranks(g[0], 0, 0, 0, 0); });
}
static void fresh(MPI_Comm c, set<int> &live, const char *w) { CHK("C17,C18,C01", c > 0 && live.insert(c).second, "%s gives %d", w, c); int z = -1; MPI_Comm_size(c, &z); CHK("C17", z == 1, "size %d", z); MPI_Comm_rank(c, &z); CHK("C17", z == 0, "rank %d", z); MPI_Group g; MPI_Comm_group(c, &g); CHK("C17", g == 1, "group %d", g); int f; MPI_Status s; MPI_Iprobe(0, MPI_ANY_TAG, c, &f, &s); CHK("C17,C18", !f, "%s: queue not empty", w); MPI_Request q; int b = 5, k = 6; MPI_Isend(&b, 1, MPI_INT, 0, 77, c, &q); MPI_Test(&q, &f, &s); CHK("C17", !f, "%s: a receive was pending", w); MPI_Recv(&k, 1, MPI_INT, 0, 77, c, &s); CHK("C17", k == 5, "%s: message lost", w); MPI_Wait(&q, &s); }
static void s_comm() {
  set<int> live = {1}; vector<MPI_Comm> v; MPI_Comm base = MPI_COMM_WORLD; int keep = 4; MPI_Request q; MPI_Isend(&keep, 1, MPI_INT, 0, 5, base, &q);
  live.insert(q);
  for (int i = 0; i < 40; i++) {
    MPI_Comm b = v.size() && coin() ? v[R(0, v.size() - 1)] : base, h = -9; int k = R(0, 8); lg("constructor %d on %d", k, b);
    auto got = [&](const char *w) { fresh(h, live, w); v.push_back(h); };
    switch (k) {
      case 0: MPI_Comm_dup(b, &h); got("dup"); break;
      case 1: { int col = coin(30) ? MPI_UNDEFINED : R(0, 3); MPI_Comm_split(b, col, R(-3, 3), &h); if (col == MPI_UNDEFINED) CHK("C17", h == MPI_COMM_NULL, "split gives %d", h); else got("split"); break; }
      case 2: { int g = R(-1, 1); MPI_Comm_create(b, g, &h); if (g != 1) CHK("C17", h == MPI_COMM_NULL, "create gives %d", h); else got("create"); break; }
      case 3: { int l = coin(70), p = coin(70); MPI_Intercomm_create(l ? b : MPI_COMM_NULL, 0, p ? base : MPI_COMM_NULL, 0, 3, &h); if (!l && !p) CHK("C17", h == MPI_COMM_NULL, "intercomm gives %d", h); else got("intercomm_create"); break; }
      case 4: { int l = coin(70); MPI_Intercomm_merge(l ? b : MPI_COMM_NULL, R(0, 1), &h); if (!l) CHK("C17", h == MPI_COMM_NULL, "merge gives %d", h); else got("merge"); break; }
      case 5: { int n = R(0, 4); vector<int> d(n + 1), p(n + 1, 1); bool bad = false; for (int j = 0; j < n; j++) { d[j] = coin(85) ? 1 : R(-1, 3); if (d[j] > 1) bad = true; } d[n] = 5; if (bad) MUSTDIE("C18", ("cart_create " + SV(d)).c_str(), { MPI_Cart_create(b, n, d.data(), p.data(), 0, &h); }); else { MPI_Cart_create(b, n, d.data(), p.data(), R(0, 1), &h); got("cart_create"); } break; }
      case 6: { int n = R(0, 4); vector<int> d(n + 1, -7), p(n + 1, -7), c(n + 1, -7); MPI_Cart_get(b, n, d.data(), p.data(), c.data()); for (int j = 0; j < n; j++) CHK("C18", d[j] == 1 && c[j] == 0, "cart_get dimension %d: %d %d", j, d[j], c[j]); CHK("C18", d[n] == -7 && c[n] == -7 && p[n] == -7, "cart_get wrote past the end"); int rk = coin(80) ? 0 : R(-2, 2); vector<int> e(n + 1, -7); if (rk) MUSTDIE("C18", "cart_coords of another rank", { MPI_Cart_coords(b, rk, n, e.data()); }); else { MPI_Cart_coords(b, 0, n, e.data()); for (int j = 0; j < n; j++) CHK("C18", e[j] == 0, "coordinate %d", e[j]); CHK("C18", e[n] == -7, "cart_coords wrote past the end"); } break; }
      case 7: { int n = R(0, 4), nn = coin(80) ? 1 : R(2, 4); vector<int> d(n + 1, 0); if (nn > 1) MUSTDIE("C18", "dims_create for several nodes", { MPI_Dims_create(nn, n, d.data()); }); else { MPI_Dims_create(nn, n, d.data()); for (int j = 0; j < n; j++) CHK("C18", d[j] == 1, "dims_create %d", d[j]); CHK("C18", d[n] == 0, "dims_create wrote past the end"); } break; }
      default: if (v.size()) { int j = R(0, v.size() - 1); MPI_Comm c = v[j]; live.erase(c); MPI_Comm_free(&c); CHK("C17", c == MPI_COMM_NULL, "freed communicator is %d", c); v.erase(v.begin() + j); }
    }
    if (h > 0) CHK("C22,C17", MPI_Comm_f2c(MPI_Comm_c2f(h)) == h, "f2c");
  }
  int f; MPI_Status s; MPI_Iprobe(0, 5, base, &f, &s); CHK("C17,C04", f == 1, "pending message lost"); for (auto c : v) { MPI_Iprobe(0, 5, c, &f, &s); CHK("C04", f == 0, "message crossed communicators"); }
}
static void s_env() {
  int f = -1; MPI_Initialized(&f); CHK("C20", f == 1, "initialized %d", f); char b[200], o[200]; int n = -1;
  for (int i = 0; i < 20; i++) { int code = coin(20) ? INT_MIN : coin(20) ? INT_MAX : R(-1000, 1000); memset(b, 0x77, 200); MPI_Error_string(code, b, &n); CHK("C20", n >= 0 && n < MPI_MAX_ERROR_STRING && memchr(b, 0, 200) && (int)strlen(b) == n && b[n + 1] == 0x77, "error string of %d: length %d", code, n); }
  memset(b, 0x77, 200); MPI_Get_processor_name(b, &n); CHK("C20", n > 0 && n < MPI_MAX_PROCESSOR_NAME && (int)strlen(b) == n && b[MPI_MAX_PROCESSOR_NAME] == 0x77, "processor name length %d", n); gethostname(o, 128); o[127] = 0; CHK("C20", !strcmp(o, b), "processor name %s", b);
  memset(b, 0x77, 200); MPI_Get_library_version(b, &n); CHK("C20", n > 0 && n < MPI_MAX_LIBRARY_VERSION_STRING && (int)strlen(b) == n && b[MPI_MAX_LIBRARY_VERSION_STRING] == 0x77, "library version length %d", n);
  int a = -1, c = -1; MPI_Get_Version(&a, &c); CHK("C20", a == 1 && c == 0, "version %d.%d", a, c); MPI_Op op = -7; MPI_Op_create(nullptr, 1, &op); CHK("C20", op == 0, "op %d", op); MPI_Info in = -7; MPI_Info_create(&in); CHK("C20", in == 0, "info %d", in); char k[] = "k"; MPI_Info_set(in, k, k); MPI_Info_free(&in); MPI_Errhandler_set(MPI_COMM_WORLD, 0);
  { int e = -1, v = -1, q = -1; memset(b, 0x77, 200); memset(o, 0, 200); int on; MPI_Get_library_version(o, &on); lg("Fortran library version"); mpi_get_library_version_(b, &v, &e); CHK("C20,C21", v == on && e == 0, "Fortran version length %d", v); for (int i = 0; i < MPI_MAX_LIBRARY_VERSION_STRING; i++) CHK("C20,C21", b[i] == (i < v ? o[i] : ' '), "Fortran library version: character %d is %d", i, b[i]); CHK("C20,C21", b[MPI_MAX_LIBRARY_VERSION_STRING] == 0x77, "Fortran library version written past the end"); mpi_get_version_(&v, &q, &e); CHK("C20,C21", v == 1 && q == 0 && e == 0, "Fortran version %d.%d", v, q); }
  double t0 = MPI_Wtime(); CHK("C20", t0 > 1e9 && t0 < 1e11 && MPI_Wtime() >= t0 - 1, "time %f", t0); MPI_Aint ad = 0; MPI_Get_address(&n, &ad); CHK("C09,C20", (void *)ad == &n, "address"); 
  for (int i = 0; i < R(0, 400); i++) { MPI_Comm q; MPI_Comm_dup(1, &q); }
  MUSTDIE("C19", "abort", { MPI_Abort(MPI_COMM_WORLD, R(1, 80)); }); MUSTDIE("C19", "abort", { MPI_Abort(MPI_COMM_WORLD, -1); });
  MPI_Finalize(); MPI_Initialized(&f); CHK("C20", f == 0, "initialized after finalize"); int pr = -1; MPI_Init_thread(0, 0, MPI_THREAD_MULTIPLE, &pr); CHK("C20", pr == MPI_THREAD_MULTIPLE, "provided %d", pr); MPI_Initialized(&f); CHK("C20", f == 1, "initialized"); set<int> live; fresh(MPI_COMM_WORLD, live, "world after re-initialization"); MPI_Comm q; MPI_Comm_dup(1, &q); CHK("C20,C01", q > 1, "dup %d", q); MPI_Finalize(); MPI_Init(0, 0); MPI_Initialized(&f); CHK("C20", f == 1, "initialized");
}
// ---------------------------------------------------------------- driver
struct Sc { const char *name; void (*f)(); const char *props; };
static Sc SC[] = {{"handles", s_handles, "C01,C02,C23"}, {"point-to-point", s_p2p, "C01,C02,C03,C04,C05,C06,C07,C08,C19,C23,C24"}, {"datatypes", s_types, "C09,C10,C11,C13,C01,C23"}, {"predefined", s_predef, "C11,C05,C22"}, {"pack", s_pack, "C12,C13,C05,C09,C10,C23"}, {"collectives", s_coll, "C14,C15,C05,C19,C23"}, {"groups", s_group, "C16"}, {"communicators", s_comm, "C17,C18,C01,C23"}, {"environment", s_env, "C20,C19,C22"}};
int main(int ac, char **av) {
  string prop = av[1]; unsigned long long seed = strtoull(av[2], 0, 10); int secs = atoi(av[3]);
  LOG = (char *)mmap(0, LOGN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH = (Shared *)mmap(0, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  initpre(); time_t t0 = time(0); string second; char errf[] = "/tmp/werrXXXXXX"; int ef = mkstemp(errf); unlink(errf);
  int only = ac > 4 ? atoi(av[4]) : -1; long runs = 0;
  for (unsigned long long it = 0; time(0) - t0 < secs; it++) for (int k = 0; k < (int)(sizeof SC / sizeof *SC); k++) {
    if (prop != "ALL" && !strstr(SC[k].props, prop.c_str()) && !(it % 16 == 15)) continue;
    if (only >= 0 && k != only) continue;
    LOG[0] = 0; memset(SH, 0, sizeof *SH); ftruncate(ef, 0); lseek(ef, 0, SEEK_SET); fflush(stdout);
    pid_t p = fork(); runs++;
    if (!p) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(ef, 2); alarm(20); RS = seed * 1000003 + it * 101 + k; for (int i = 0; i < 8; i++) rnd(); if (lseek(2, 0, SEEK_CUR)) lseek(2, 0, SEEK_SET); MPI_Init(&ac, &av); SC[k].f(); _exit(0); }
    int s; waitpid(p, &s, 0); if (WIFEXITED(s) && WEXITSTATUS(s) == 0) continue;
    string tx; string pr;
    if (SH->failed) { tx = SH->text; pr = SH->props; } else { char eb[3000]; lseek(ef, 0, SEEK_SET); int n = read(ef, eb, 2999); eb[n < 0 ? 0 : n] = 0; string e = eb; size_t a = e.find("ERROR: AddressSanitizer"); if (a != string::npos) e = e.substr(a, 900); tx = string(WIFSIGNALED(s) ? "the program was killed by signal " + S(WTERMSIG(s)) : "the program exited with status " + S(WEXITSTATUS(s))) + " during valid calls\n" + e.substr(0, 1000); pr = string(SC[k].props) + ",C19,C23"; }
    string lgx = LOG; if (lgx.size() > 4000) lgx = "...\n" + lgx.substr(lgx.size() - 4000);
    string rep = "FAIL " + pr + "\nscenario " + SC[k].name + " (w ALL " + S(seed) + " iteration " + S(it) + ")\n" + tx + "\nlast operations:\n" + lgx;
    if (prop == "ALL" || strstr(pr.c_str(), prop.c_str())) { printf("%s\n", rep.c_str()); return 1; }
    if (second.empty()) second = rep; if (time(0) - t0 > secs / 3) { printf("%s\n", second.c_str()); return 1; }
  }
  if (second.size()) { printf("%s\n", second.c_str()); return 1; }
  fprintf(stderr, "%ld runs\n", runs); return 0;
}

// Engine behind symx.hpp: term table, path exploration, SMT back end, replay.
#define SYMX_NO_TLAPACK
#include "symx.hpp"

#include <fcntl.h>
#include <gmpxx.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace std;
namespace sx {

static double now()
{
    return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------------------
// Polynomials
typedef uint32_t mid;
struct MonoTab {
    vector<vector<pair<uint32_t, uint32_t>>> m;  // sorted by var, descending
    map<vector<pair<uint32_t, uint32_t>>, mid> idx;
    unordered_map<uint64_t, mid> mulmemo;
    MonoTab() { clear(); }
    void clear()
    {
        m.clear();
        idx.clear();
        mulmemo.clear();
        get({});
    }
    mid get(const vector<pair<uint32_t, uint32_t>>& v)
    {
        auto it = idx.find(v);
        if (it != idx.end()) return it->second;
        mid r = m.size();
        m.push_back(v);
        idx[v] = r;
        return r;
    }
    mid mul(mid a, mid b)
    {
        if (a == 0) return b;
        if (b == 0) return a;
        if (a > b) swap(a, b);
        uint64_t k = ((uint64_t)a << 32) | b;
        auto it = mulmemo.find(k);
        if (it != mulmemo.end()) return it->second;
        vector<pair<uint32_t, uint32_t>> r;
        auto &x = m[a], &y = m[b];
        size_t i = 0, j = 0;
        while (i < x.size() || j < y.size()) {
            if (j >= y.size() || (i < x.size() && x[i].first > y[j].first)) r.push_back(x[i++]);
            else if (i >= x.size() || y[j].first > x[i].first) r.push_back(y[j++]);
            else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
        }
        mid q = get(r);
        mulmemo[k] = q;
        return q;
    }
    // a divides b -> quotient
    bool divides(mid a, mid b, mid& q)
    {
        auto &x = m[a], &y = m[b];
        vector<pair<uint32_t, uint32_t>> r;
        size_t i = 0;
        for (size_t j = 0; j < y.size(); j++) {
            if (i < x.size() && x[i].first == y[j].first) {
                if (x[i].second > y[j].second) return false;
                if (y[j].second > x[i].second) r.push_back({y[j].first, y[j].second - x[i].second});
                i++;
            }
            else if (i < x.size() && x[i].first > y[j].first) return false;
            else r.push_back(y[j]);
        }
        if (i < x.size()) return false;
        q = get(r);
        return true;
    }
    bool lexless(mid a, mid b) { return m[a] < m[b]; }
};
static MonoTab MT;

struct Poly {
    vector<pair<mid, mpq_class>> t;  // sorted by mid
    bool isconst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
};
static const size_t MAXTERMS = 60000;
static Poly padd(const Poly& a, const Poly& b, const mpq_class& s)
{
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
            r.t.push_back({b.t[j].first, mpq_class(b.t[j].second * s)});
            j++;
        }
        else {
            mpq_class c = a.t[i].second + b.t[j].second * s;
            if (c != 0) r.t.push_back({a.t[i].first, c});
            i++; j++;
        }
    }
    return r;
}
static bool pmul(const Poly& a, const Poly& b, Poly& r)
{
    r.t.clear();
    if (a.t.empty() || b.t.empty()) return true;
    if ((double)a.t.size() * b.t.size() > 4e6) return false;
    if (a.t.size() == 1 && a.t[0].first == 0) {
        r = b;
        for (auto& x : r.t) x.second *= a.t[0].second;
        return true;
    }
    if (b.t.size() == 1 && b.t[0].first == 0) return pmul(b, a, r);
    unordered_map<mid, mpq_class> h;
    h.reserve(a.t.size() * b.t.size());
    for (auto& x : a.t)
        for (auto& y : b.t) h[MT.mul(x.first, y.first)] += x.second * y.second;
    for (auto& e : h)
        if (e.second != 0) r.t.push_back({e.first, e.second});
    if (r.t.size() > MAXTERMS) return false;
    sort(r.t.begin(), r.t.end(), [](auto& u, auto& v) { return u.first < v.first; });
    return true;
}
static Poly pconst(const mpq_class& c)
{
    Poly p;
    if (c != 0) p.t.push_back({0, c});
    return p;
}
static mid mono_of_var(uint32_t v) { return MT.get({{v, 1}}); }

// ---------------------------------------------------------------------------
// Nodes
enum Kind : uint8_t { K_SPEC, K_CONST, K_VAR, K_ADD, K_MUL };
struct Node {
    Kind k;
    nid a, b;
    int aux;
};
enum VKind { V_INPUT, V_QUOT, V_SQRT, V_ABS, V_CQ, V_CSQ };
struct VarInfo {
    string name;
    VKind kind;
    uint32_t def;      // formula id (0 = true)
    nid num = 0, den = 0;  // V_QUOT / V_CQ: value = num/den ; V_SQRT: num = radicand; V_ABS num
    nid node = 0;
};
static vector<Node> N;
static vector<mpq_class> CQ;
static vector<mpf_class> CF;   // concrete values (indexed by aux when K_CONST in concrete mode)
static vector<VarInfo> V;
static map<string, nid> constmemo;
static unordered_map<uint64_t, nid> addmemo, mulmemo_;
static map<pair<nid, nid>, nid> divmemo, hypmemo;
static map<nid, nid> sqrtmemo, absmemo;
static map<array<nid, 4>, pair<nid, nid>> cdivmemo;
static map<pair<nid, nid>, pair<nid, nid>> csqrtmemo;
static vector<unique_ptr<Poly>> polycache;
static vector<char> polystate;  // 0 unknown 1 ok 2 too big
static map<string, nid> inputs;
static vector<string> input_order;

enum Mode { SYM, CONC };
static Mode mode = SYM;
static const int PREC = 1024;

// formulas
enum FK : uint8_t { F_T, F_FALSE, F_REL, F_AND, F_OR, F_NOT };
struct FNode {
    FK k;
    nid a, b;
    int mask;
    vector<uint32_t> kids;
};
static vector<FNode> FN;
static map<tuple<nid, nid, int>, uint32_t> relmemo;

// statistics / case state
struct Stats {
    long queries = 0, unsat = 0, sat = 0, unknown = 0, paths = 0, forks = 0, asserts = 0, proven = 0, inconcl = 0,
         cuts = 0, conc_ok = 0, conc_disc = 0, oblig = 0, vac = 0, trivial = 0, icp = 0;
    double solver_s = 0;
};
static Stats st;
static CaseOpts curopts;
CaseOpts& opts() { return curopts; }
static string curcase;
static double case_deadline = 0;
static bool g_thorough = false;
bool thorough() { return g_thorough; }
static uint64_t g_seed = 1;
static mt19937_64 rng;

struct Viol {
    string label, detail;
    map<string, string> model;
    bool confirmed;
};
static vector<Viol> viols;
static vector<string> inconcl;
static set<string> covered, boundtxt, assumptxt;
void covers(const string& f)
{
    stringstream ss(f);
    string x;
    while (getline(ss, x, ',')) {
        size_t p = x.find_first_not_of(' ');
        if (p != string::npos) covered.insert(x.substr(p));
    }
}
void bounds(const string& t) { boundtxt.insert(t); }
void assumption(const string& t) { assumptxt.insert(t); }

// control
static jmp_buf path_jmp;
static bool in_path = false;
enum { J_END = 1, J_FAIL = 2, J_DISCARD = 3 };
static string jmp_reason;
[[noreturn]] static void leave(int code) { longjmp(path_jmp, code); }

// concrete-run state
static map<string, mpf_class>* conc_values = nullptr;  // given
static bool conc_random = false;
static vector<string> conc_failures;
static map<string, mpf_class> conc_used;

namespace tw { static void reset(); }
static void table_reset()
{
    N.clear(); CQ.clear(); CF.clear(); V.clear(); constmemo.clear(); addmemo.clear(); mulmemo_.clear();
    divmemo.clear(); hypmemo.clear(); sqrtmemo.clear(); absmemo.clear(); cdivmemo.clear(); csqrtmemo.clear();
    polycache.clear(); polystate.clear(); inputs.clear(); input_order.clear(); FN.clear(); relmemo.clear();
    MT.clear(); tw::reset();
    // fixed ids
    auto spec = [](int aux) { N.push_back({K_SPEC, 0, 0, aux}); };
    if (mode == SYM) { CQ.push_back(0); CQ.push_back(1); }
    else { CF.push_back(mpf_class(0, PREC)); CF.push_back(mpf_class(1, PREC)); }
    N.push_back({K_CONST, 0, 0, 0});
    N.push_back({K_CONST, 0, 0, 1});
    constmemo["0"] = 0;
    constmemo["1"] = 1;
    spec(NANV); spec(PINF); spec(NINF); spec(POISON); spec(TAINT);
    FN.push_back({F_T, 0, 0, 0, {}});
    FN.push_back({F_FALSE, 0, 0, 0, {}});
}

static inline bool isspec(nid a) { return N[a].k == K_SPEC; }
static inline bool ispoi(nid a) { return a == POISON || a == TAINT; }
static inline bool isconst(nid a) { return N[a].k == K_CONST; }
static inline const mpq_class& cq(nid a) { return CQ[N[a].aux]; }
static inline const mpf_class& cf(nid a) { return CF[N[a].aux]; }
static nid mkc(const mpq_class& q)
{
    if (mode == CONC) {
        CF.push_back(mpf_class(q, PREC));
        N.push_back({K_CONST, 0, 0, (int)CF.size() - 1});
        return N.size() - 1;
    }
    string s = q.get_str();
    auto it = constmemo.find(s);
    if (it != constmemo.end()) return it->second;
    CQ.push_back(q);
    N.push_back({K_CONST, 0, 0, (int)CQ.size() - 1});
    return constmemo[s] = N.size() - 1;
}
static nid mkf(const mpf_class& f)
{
    CF.push_back(f);
    N.push_back({K_CONST, 0, 0, (int)CF.size() - 1});
    return N.size() - 1;
}
static void ensure()
{
    if (N.empty()) table_reset();
}
nid mk_int(long long v)
{
    ensure();
    if (v == 0) return ZERO;
    if (v == 1) return ONE;
    return mkc(mpq_class((long)v));
}
nid mk_dbl(double v)
{
    ensure();
    if (std::isnan(v)) return NANV;
    if (std::isinf(v)) return v > 0 ? PINF : NINF;
    if (v == 0) return ZERO;
    if (v == 1) return ONE;
    return mkc(mpq_class(v));
}
nid mk_rat(long long n, long long d)
{
    ensure();
    mpq_class q((long)n, (long)d);
    q.canonicalize();
    return mkc(q);
}
nid mk_pow2(int e)
{
    ensure();
    mpz_class p = 1;
    p <<= (e < 0 ? -e : e);
    return mkc(e >= 0 ? mpq_class(p) : mpq_class(mpz_class(1), p));
}
static nid newvar(const string& name, VKind k)
{
    V.push_back({name, k, 0, 0, 0, 0});
    N.push_back({K_VAR, 0, 0, (int)V.size() - 1});
    V.back().node = N.size() - 1;
    return N.size() - 1;
}
// fuzzy comparison in concrete mode: sign of a-b
static bool fine_cmp = false;
static int fsign(const mpf_class& a, const mpf_class& b, bool assertion = false)
{
    mpf_class d(a - b, PREC), m(::abs(a), PREC), ab(::abs(b), PREC);
    if (ab > m) m = ab;
    // one-parameter cases: the data are exact, only square roots are not
    static const mpf_class rels[2] = {mpf_class("1e-60", PREC), mpf_class("1e-200", PREC)}, absls[2] = {mpf_class("1e-70", PREC), mpf_class("1e-210", PREC)};
    const mpf_class &rel = rels[fine_cmp && !assertion], &absl = absls[fine_cmp && !assertion];
    if (abs(d) <= rel * m || abs(d) <= absl) return 0;
    return sgn(d);
}

bool has_special(nid a) { return isspec(a); }
// the constant v (every constant has its own node in a concrete run)
static bool isnum(nid a, int v)
{
    if (a == (v ? (nid)ONE : (nid)ZERO)) return true;
    return mode == CONC && !isspec(a) && cf(a) == v;
}
static nid spec_add(nid a, nid b)
{
    if (isnum(a, 0) || isnum(b, 0)) return isnum(a, 0) ? b : a;
    if (ispoi(a) || ispoi(b)) return TAINT;
    if (a == NANV || b == NANV) return NANV;
    bool ia = a == PINF || a == NINF, ib = b == PINF || b == NINF;
    if (ia && ib) return a == b ? a : (nid)NANV;
    return ia ? a : b;
}
nid e_neg(nid a)
{
    if (isspec(a)) return a == PINF ? NINF : a == NINF ? PINF : a == POISON ? (nid)TAINT : a;
    return e_mul(mk_int(-1), a);
}
nid e_add(nid a, nid b)
{
    if (isspec(a) || isspec(b)) return spec_add(a, b);
    if (mode == CONC) return mkf(mpf_class(cf(a) + cf(b), PREC));
    if (a == ZERO) return b;
    if (b == ZERO) return a;
    if (isconst(a) && isconst(b)) return mkc(cq(a) + cq(b));
    if (a > b) swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b;
    auto it = addmemo.find(k);
    if (it != addmemo.end()) return it->second;
    N.push_back({K_ADD, a, b, 0});
    return addmemo[k] = N.size() - 1;
}
nid e_sub(nid a, nid b)
{
    if (mode == SYM && a == b && !isspec(a)) return ZERO;
    return e_add(a, e_neg(b));
}
static bool branch_mask(nid a, int mask);
nid e_mul(nid a, nid b)
{
    if (isspec(a) || isspec(b)) {
        if (isnum(a, 1) || isnum(b, 1)) return isnum(a, 1) ? b : a;
        if (ispoi(a) || ispoi(b)) return TAINT;
        if (a == NANV || b == NANV) return NANV;
        if (!isspec(b)) swap(a, b);
        if (isspec(a)) {  // both inf
            return a == b ? PINF : NINF;
        }
        // b infinite, a finite
        if (branch_mask(a, EQ)) return NANV;
        bool pos = branch_mask(a, GT);
        return pos ? b : (b == PINF ? NINF : PINF);
    }
    if (mode == CONC) return mkf(mpf_class(cf(a) * cf(b), PREC));
    if (a == ZERO || b == ZERO) return ZERO;
    if (a == ONE) return b;
    if (b == ONE) return a;
    if (isconst(a) && isconst(b)) return mkc(cq(a) * cq(b));
    if (isconst(b)) swap(a, b);
    if (isconst(a) && N[b].k == K_MUL && isconst(N[b].a)) return e_mul(mkc(cq(a) * cq(N[b].a)), N[b].b);
    if (!isconst(a) && a > b) swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b;
    auto it = mulmemo_.find(k);
    if (it != mulmemo_.end()) return it->second;
    N.push_back({K_MUL, a, b, 0});
    return mulmemo_[k] = N.size() - 1;
}

static const Poly* poly(nid a)
{
    if (polycache.size() < N.size()) {
        polycache.resize(N.size());
        polystate.resize(N.size(), 0);
    }
    if (polystate[a] == 1) return polycache[a].get();
    if (polystate[a] == 2) return nullptr;
    // iterative post-order to avoid deep recursion
    vector<nid> stack{a};
    while (!stack.empty()) {
        nid x = stack.back();
        if (polystate[x]) { stack.pop_back(); continue; }
        const Node n = N[x];
        if (n.k == K_CONST) {
            polycache[x] = make_unique<Poly>(pconst(CQ[n.aux]));
            polystate[x] = 1;
        }
        else if (n.k == K_VAR) {
            auto p = make_unique<Poly>();
            p->t.push_back({mono_of_var(n.aux), 1});
            polycache[x] = move(p);
            polystate[x] = 1;
        }
        else if (n.k == K_SPEC) polystate[x] = 2;
        else {
            if (!polystate[n.a]) { stack.push_back(n.a); continue; }
            if (!polystate[n.b]) { stack.push_back(n.b); continue; }
            if (polystate[n.a] == 2 || polystate[n.b] == 2) polystate[x] = 2;
            else {
                auto p = make_unique<Poly>();
                bool ok = true;
                if (n.k == K_ADD) *p = padd(*polycache[n.a], *polycache[n.b], 1);
                else ok = pmul(*polycache[n.a], *polycache[n.b], *p);
                if (ok && p->t.size() <= MAXTERMS) {
                    polycache[x] = move(p);
                    polystate[x] = 1;
                }
                else polystate[x] = 2;
            }
        }
        stack.pop_back();
    }
    return polystate[a] == 1 ? polycache[a].get() : nullptr;
}

// ---------------------------------------------------------------------------
// Formulas
static int csign(nid a, nid b, bool assertion = false)
{
    if (mode == CONC) return fsign(cf(a), cf(b), assertion);
    return ::cmp(cq(a), cq(b));
}
namespace tw { static bool on(); static bool canon(nid a, nid b, int mask, nid& r); static void reset(); }
F f_true() { ensure(); return F{0}; }
F f_false() { ensure(); return F{1}; }
F f_rel(nid a, nid b, int mask)
{
    ensure();
    if (isspec(a) || isspec(b)) {
        // NaN compares false (!= true); infinities are ordered
        if (ispoi(a) || ispoi(b) || a == NANV || b == NANV) return F{mask == NE ? 0u : 1u};
        int va = a == PINF ? 1 : a == NINF ? -1 : 0, vb = b == PINF ? 1 : b == NINF ? -1 : 0;
        int s = va < vb ? LT : va == vb ? EQ : GT;
        return F{(mask & s) ? 0u : 1u};
    }
    if (isconst(a) && isconst(b)) {
        int s = csign(a, b, true);
        int m = s < 0 ? LT : s == 0 ? EQ : GT;
        return F{(mask & m) ? 0u : 1u};
    }
    if (a == b) return F{(mask & EQ) ? 0u : 1u};
    if (tw::on()) {
        nid r;
        if (tw::canon(a, b, mask, r)) {
            a = r;
            b = ZERO;
            if (isconst(a)) {
                int s = csign(a, b, true);
                return F{(mask & (s < 0 ? LT : s == 0 ? EQ : GT)) ? 0u : 1u};
            }
        }
    }
    auto key = make_tuple(a, b, mask);
    auto it = relmemo.find(key);
    if (it != relmemo.end()) return F{it->second};
    FN.push_back({F_REL, a, b, mask, {}});
    relmemo[key] = FN.size() - 1;
    return F{(uint32_t)FN.size() - 1};
}
F f_and(F a, F b)
{
    if (a.id == 0) return b;
    if (b.id == 0) return a;
    if (a.id == 1 || b.id == 1) return F{1};
    FN.push_back({F_AND, 0, 0, 0, {a.id, b.id}});
    return F{(uint32_t)FN.size() - 1};
}
F f_or(F a, F b)
{
    if (a.id == 1) return b;
    if (b.id == 1) return a;
    if (a.id == 0 || b.id == 0) return F{0};
    FN.push_back({F_OR, 0, 0, 0, {a.id, b.id}});
    return F{(uint32_t)FN.size() - 1};
}
F f_not(F a)
{
    if (a.id == 0) return F{1};
    if (a.id == 1) return F{0};
    if (FN[a.id].k == F_REL) return f_rel(FN[a.id].a, FN[a.id].b, 7 ^ FN[a.id].mask);
    if (FN[a.id].k == F_NOT) return F{FN[a.id].kids[0]};
    FN.push_back({F_NOT, 0, 0, 0, {a.id}});
    return F{(uint32_t)FN.size() - 1};
}
F f_all(const vector<F>& v)
{
    F r = f_true();
    for (auto& x : v) r = f_and(r, x);
    return r;
}
F f_any(const vector<F>& v)
{
    F r = f_false();
    for (auto& x : v) r = f_or(r, x);
    return r;
}

// ---------------------------------------------------------------------------
// Solver pipe
struct Pipe {
    pid_t pid = -1;
    int in = -1, out = -1;
    string buf;
    vector<string> argv;
    void start()
    {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(3); }
        pid = fork();
        if (pid == 0) {
            dup2(a[0], 0);
            dup2(b[1], 1);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            vector<char*> av;
            for (auto& s : argv) av.push_back((char*)s.c_str());
            av.push_back(nullptr);
            execvp(av[0], av.data());
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        in = a[1];
        out = b[0];
        buf.clear();
    }
    void stop()
    {
        if (pid > 0) {
            kill(pid, SIGKILL);
            waitpid(pid, nullptr, 0);
            close(in);
            close(out);
        }
        pid = -1;
    }
    // returns text up to the marker, or "" on timeout/death
    bool ask(const string& q, double timeout, string& ans)
    {
        if (pid < 0) start();
        string msg = q + "\n(echo \"@@done\")\n";
        size_t off = 0;
        double dl = now() + timeout;
        fcntl(in, F_SETFL, O_NONBLOCK);
        while (true) {
            struct pollfd pf[2] = {{out, POLLIN, 0}, {in, POLLOUT, 0}};
            int nf = off < msg.size() ? 2 : 1;
            double left = dl - now();
            if (left <= 0) { stop(); return false; }
            int r = poll(pf, nf, (int)(left * 1000) + 1);
            if (r < 0) { if (errno == EINTR) continue; stop(); return false; }
            if (nf == 2 && (pf[1].revents & (POLLOUT | POLLERR))) {
                ssize_t w = write(in, msg.data() + off, msg.size() - off);
                if (w > 0) off += w;
                else if (w < 0 && errno != EAGAIN) { stop(); return false; }
            }
            if (pf[0].revents & (POLLIN | POLLHUP)) {
                char tmp[65536];
                ssize_t n = read(out, tmp, sizeof tmp);
                if (n <= 0) { stop(); return false; }
                buf.append(tmp, n);
                size_t p = buf.find("@@done");
                if (p != string::npos) {
                    ans = buf.substr(0, p);
                    buf.clear();
                    return true;
                }
            }
        }
    }
};
static Pipe z3;

enum Res { UNSAT, SAT, UNK };
static Res run_query(const string& q, int ms, map<string, string>* model, const vector<string>* names)
{
    if (z3.argv.empty()) z3.argv = {"z3-new", "-in", "-smt2"};
    double t0 = now();
    st.queries++;
    string pre = "(reset)\n(set-option :timeout " + to_string(ms) + ")\n";
    if (model) pre += "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 90)\n";
    string ans;
    bool ok = z3.ask(pre + q + "(check-sat)", ms / 1000.0 + 5, ans);
    Res r = UNK;
    if (ok && ans.find("(error") == string::npos) {
        if (ans.find("unsat") != string::npos) r = UNSAT;
        else if (ans.find("sat") != string::npos) r = SAT;
    }
    else if (ok && getenv("SX_DEBUG")) fprintf(stderr, "solver error: %s\n", ans.substr(0, 300).c_str());
    if (r == SAT && model) {
        model->clear();
        string g = "(get-value (";
        for (auto& n : *names) g += n + " ";
        g += "))";
        if (!names->empty() && z3.ask(g, 10, ans)) (*model)["@raw"] = ans;
    }
    st.solver_s += now() - t0;
    if (r == UNSAT) st.unsat++;
    else if (r == SAT) st.sat++;
    else st.unknown++;
    if (getenv("SX_TRACE")) {
        fprintf(stderr, "[q %s %.3fs len=%zu]\n", r == UNSAT ? "unsat" : r == SAT ? "sat" : "unk", now() - t0, q.size());
        if (atoi(getenv("SX_TRACE")) > 1) fprintf(stderr, "%s\n", q.c_str());
    }
    return r;
}

// parse "((x1 1.5) (x2 (- 2.0)) (x3 (/ 1.0 3.0)) ...)"
struct SexpP {
    const string& s;
    size_t p = 0;
    void ws() { while (p < s.size() && isspace(s[p])) p++; }
    bool val(mpf_class& out)
    {
        ws();
        if (p >= s.size()) return false;
        if (s[p] == '(') {
            p++;
            ws();
            string op;
            while (p < s.size() && !isspace(s[p]) && s[p] != ')') op += s[p++];
            if (op == "-" || op == "/" || op == "+" || op == "*") {
                vector<mpf_class> a;
                while (true) {
                    ws();
                    if (p < s.size() && s[p] == ')') { p++; break; }
                    mpf_class x(0, PREC);
                    if (!val(x)) return false;
                    a.push_back(x);
                }
                if (a.empty()) return false;
                out = mpf_class(a[0], PREC);
                if (op == "-") { if (a.size() == 1) out = -out; else for (size_t i = 1; i < a.size(); i++) out -= a[i]; }
                if (op == "/") for (size_t i = 1; i < a.size(); i++) { if (a[i] == 0) return false; out /= a[i]; }
                if (op == "+") for (size_t i = 1; i < a.size(); i++) out += a[i];
                if (op == "*") for (size_t i = 1; i < a.size(); i++) out *= a[i];
                return true;
            }
            return false;
        }
        string tok;
        while (p < s.size() && !isspace(s[p]) && s[p] != ')' && s[p] != '(') tok += s[p++];
        if (!tok.empty() && tok.back() == '?') tok.pop_back();
        if (tok.empty()) return false;
        // rational a/b
        out = mpf_class(0, PREC);
        return out.set_str(tok, 10) == 0;
    }
};
static bool parse_model(const string& raw, map<string, mpf_class>& out)
{
    SexpP ps{raw};
    ps.ws();
    if (ps.p >= raw.size() || raw[ps.p] != '(') return false;
    ps.p++;
    while (true) {
        ps.ws();
        if (ps.p >= raw.size()) return false;
        if (raw[ps.p] == ')') return true;
        if (raw[ps.p] != '(') return false;
        ps.p++;
        ps.ws();
        string nm;
        while (ps.p < raw.size() && !isspace(raw[ps.p])) nm += raw[ps.p++];
        mpf_class v(0, PREC);
        if (!ps.val(v)) return false;
        out.insert_or_assign(nm, v);
        ps.ws();
        if (ps.p < raw.size() && raw[ps.p] == ')') ps.p++;
    }
}

// ---------------------------------------------------------------------------
// Path condition
struct PolyLess {
    bool operator()(const Poly& a, const Poly& b) const
    {
        if (a.t.size() != b.t.size()) return a.t.size() < b.t.size();
        for (size_t i = 0; i < a.t.size(); i++) {
            if (a.t[i].first != b.t[i].first) return a.t[i].first < b.t[i].first;
            int c = ::cmp(a.t[i].second, b.t[i].second);
            if (c) return c < 0;
        }
        return false;
    }
};
static map<Poly, int, PolyLess> polykeys;
static vector<Poly> keypoly;
static int flip(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static int poly_key(const Poly& p0, int& mask)
{
    Poly p = p0;
    mpq_class lc = p.t.back().second;
    if (lc != 1) {
        for (auto& x : p.t) x.second /= lc;
        if (sgn(lc) < 0) mask = flip(mask);
    }
    auto it = polykeys.find(p);
    if (it != polykeys.end()) return it->second;
    int id = keypoly.size();
    keypoly.push_back(p);
    polykeys[p] = id;
    return id;
}
struct PC {
    map<int, int> allowed;        // key -> mask
    vector<uint32_t> extra;       // formulas
    map<nid, int> raw;            // node (a-b too big) -> mask
};
static PC pc;
struct Dec {
    bool val, alt;
};
static vector<Dec> prefix;
static size_t pos = 0;
static vector<Dec> trace;

// ---- encoding -------------------------------------------------------------
static string qstr(const mpq_class& q)
{
    auto z = [](const mpz_class& x) { return x < 0 ? "(- " + mpz_class(-x).get_str() + ".0)" : x.get_str() + ".0"; };
    if (q.get_den() == 1) return z(q.get_num());
    return "(/ " + z(q.get_num()) + " " + q.get_den().get_str() + ".0)";
}
// An atom set for linear/monomial encoding
typedef map<uint32_t, Poly> Subst;
static bool psubst(const Poly& p, const Subst& s, Poly& r)
{
    if (s.empty()) { r = p; return true; }
    bool any = false;
    for (auto& t : p.t)
        for (auto& ve : MT.m[t.first])
            if (s.count(ve.first)) any = true;
    if (!any) { r = p; return true; }
    r.t.clear();
    for (auto& t : p.t) {
        Poly cur = pconst(t.second);
        auto mono = MT.m[t.first];
        for (auto& ve : mono) {
            auto it = s.find(ve.first);
            for (uint32_t e = 0; e < ve.second; e++) {
                Poly nx, f;
                if (it != s.end()) f = it->second;
                else f.t.push_back({mono_of_var(ve.first), 1});
                if (!pmul(cur, f, nx)) return false;
                cur = nx;
                if (cur.t.size() > MAXTERMS / 4) return false;
            }
        }
        r = padd(r, cur, 1);
        if (r.t.size() > MAXTERMS) return false;
    }
    return true;
}

// boolean structure with polynomial atoms
struct BF {
    enum T { TT, FF, ATOM, AND, OR, NOT } k;
    Poly p, q;   // atom: p mask q (sides kept apart: the solver cancels)
    int mask;
    vector<BF> kids;
    Poly diff() const { return q.t.empty() ? p : padd(p, q, -1); }
};
static bool rel_poly(nid a, nid b, Poly& d)
{
    const Poly* pa = poly(a);
    if (!pa) return false;
    const Poly* pb = poly(b);
    if (!pb) return false;
    d = padd(*pa, *pb, -1);
    return true;
}
// sides kept apart so that the solver, not this code, does the cancelling
static bool to_bf(uint32_t f, BF& out)
{
    const FNode n = FN[f];
    switch (n.k) {
        case F_T: out.k = BF::TT; return true;
        case F_FALSE: out.k = BF::FF; return true;
        case F_REL:
            out.k = BF::ATOM;
            out.mask = n.mask;
            {
                const Poly* pa = poly(n.a);
                const Poly* pb = pa ? poly(n.b) : nullptr;
                if (!pa || !pb) return false;
                out.p = *poly(n.a);
                out.q = *pb;
                return true;
            }
        default:
            out.k = n.k == F_AND ? BF::AND : n.k == F_OR ? BF::OR : BF::NOT;
            for (auto c : n.kids) {
                BF x;
                if (!to_bf(c, x)) return false;
                out.kids.push_back(move(x));
            }
            return true;
    }
}
static void bf_polys(BF& b, const function<void(Poly&)>& f)
{
    if (b.k == BF::ATOM) { f(b.p); f(b.q); }
    for (auto& k : b.kids) bf_polys(k, f);
}
static void f_vars(uint32_t f, set<uint32_t>& vs);
static void node_vars(nid a, set<uint32_t>& vs)
{
    static vector<uint32_t> mark;
    static uint32_t epoch = 0;
    epoch++;
    if (mark.size() < N.size()) mark.resize(N.size() + 1024, 0);
    vector<nid> stk{a};
    while (!stk.empty()) {
        nid x = stk.back();
        stk.pop_back();
        if (mark[x] == epoch) continue;
        mark[x] = epoch;
        if (N[x].k == K_VAR) vs.insert(N[x].aux);
        else if (N[x].k == K_ADD || N[x].k == K_MUL) { stk.push_back(N[x].a); stk.push_back(N[x].b); }
    }
}
static void f_vars(uint32_t f, set<uint32_t>& vs)
{
    const FNode n = FN[f];
    if (n.k == F_REL) { node_vars(n.a, vs); node_vars(n.b, vs); }
    for (auto k : n.kids) f_vars(k, vs);
}
static void cone(set<uint32_t>& vs)
{
    vector<uint32_t> w(vs.begin(), vs.end());
    while (!w.empty()) {
        uint32_t v = w.back();
        w.pop_back();
        set<uint32_t> nv;
        if (V[v].def) f_vars(V[v].def, nv);
        for (auto x : nv)
            if (vs.insert(x).second) w.push_back(x);
    }
}

struct Problem {
    vector<BF> fs;           // conjunction
    bool ok = true;
};
static string mono_name(mid m) { return "m" + to_string(m); }

static void emit_poly_lin(const Poly& p, ostream& o)
{
    if (p.t.empty()) { o << "0.0"; return; }
    if (p.t.size() > 1) o << "(+";
    for (auto& t : p.t) {
        o << ' ';
        if (t.first == 0) o << qstr(t.second);
        else if (t.second == 1) o << mono_name(t.first);
        else o << "(* " << qstr(t.second) << ' ' << mono_name(t.first) << ')';
    }
    if (p.t.size() > 1) o << ')';
}
static const char* opname(int mask)
{
    switch (mask) {
        case LT: return "<";
        case LE: return "<=";
        case EQ: return "=";
        case GT: return ">";
        case GE: return ">=";
        default: return "distinct";
    }
}
static void emit_atom_lin(const Poly& l, const Poly& r, int mask, ostream& o)
{
    if (mask == 0) { o << "false"; return; }
    if (mask == 7) { o << "true"; return; }
    o << '(' << opname(mask) << ' ';
    emit_poly_lin(l, o);
    o << ' ';
    emit_poly_lin(r, o);
    o << ')';
}
static void emit_bf(const BF& b, ostream& o)
{
    switch (b.k) {
        case BF::TT: o << "true"; break;
        case BF::FF: o << "false"; break;
        case BF::ATOM: emit_atom_lin(b.p, b.q, b.mask, o); break;
        case BF::NOT: o << "(not "; emit_bf(b.kids[0], o); o << ')'; break;
        default:
            o << (b.k == BF::AND ? "(and" : "(or");
            for (auto& k : b.kids) { o << ' '; emit_bf(k, o); }
            o << ')';
    }
}
static void collect_monos(const BF& b, set<mid>& ms)
{
    if (b.k == BF::ATOM)
    {
        for (auto& t : b.p.t) ms.insert(t.first);
        for (auto& t : b.q.t) ms.insert(t.first);
    }
    for (auto& k : b.kids) collect_monos(k, ms);
}
static Res solve_lin(vector<BF>& fs, int ms)
{
    set<mid> monos;
    for (auto& f : fs) collect_monos(f, monos);
    ostringstream o;
    o << "(set-logic QF_LRA)\n";
    for (auto m : monos)
        if (m) o << "(declare-const " << mono_name(m) << " Real)\n";
    for (auto m : monos) {
        if (!m) continue;
        bool even = true;
        for (auto& ve : MT.m[m]) if (ve.second % 2) even = false;
        if (even) o << "(assert (>= " << mono_name(m) << " 0.0))\n";
    }
    for (auto& f : fs) {
        o << "(assert ";
        emit_bf(f, o);
        o << ")\n";
    }
    return run_query(o.str(), ms, nullptr, nullptr);
}
static mid lead(const Poly& p)
{
    mid b = p.t[0].first;
    for (auto& t : p.t)
        if (MT.lexless(b, t.first)) b = t.first;
    return b;
}

// unconditional equations among a formula set (top-level conjunctions)
static void collect_eqs(const BF& b, vector<Poly>& eqs)
{
    if (b.k == BF::ATOM && b.mask == EQ) { Poly d = b.diff(); if (!d.t.empty()) eqs.push_back(d); }
    if (b.k == BF::AND) for (auto& k : b.kids) collect_eqs(k, eqs);
}
// add products of equations with monomials: (m/lm(E))*E for every monomial m
// in play that lm(E) divides (bounded closure)
static bool add_lemmas(vector<BF>& fs, size_t limit)
{
    vector<Poly> eqs;
    for (auto& f : fs) collect_eqs(f, eqs);
    if (eqs.empty()) return false;
    vector<mid> lms;
    for (auto& e : eqs) lms.push_back(lead(e));
    set<mid> seen;
    for (auto& f : fs) collect_monos(f, seen);
    vector<mid> work(seen.begin(), seen.end());
    // index equations by top variable of the leading monomial
    unordered_map<uint32_t, vector<int>> byvar;
    for (size_t i = 0; i < eqs.size(); i++)
        if (lms[i]) byvar[MT.m[lms[i]][0].first].push_back(i);
    size_t added = 0, terms = 0;
    set<pair<int, mid>> done;
    while (!work.empty() && added < limit && terms < 200000) {
        mid m = work.back();
        work.pop_back();
        auto mono = MT.m[m];
        for (auto& ve : mono) {
            auto it = byvar.find(ve.first);
            if (it == byvar.end()) continue;
            for (int i : it->second) {
                mid q;
                if (!MT.divides(lms[i], m, q) || q == 0) continue;
                if (!done.insert({i, q}).second) continue;
                Poly qp, r;
                qp.t.push_back({q, 1});
                if (!pmul(qp, eqs[i], r)) continue;
                BF b;
                b.k = BF::ATOM;
                b.mask = EQ;
                b.p = r;
                for (auto& t : r.t)
                    if (seen.insert(t.first).second) work.push_back(t.first);
                terms += r.t.size();
                fs.push_back(move(b));
                if (++added >= limit) break;
            }
            if (added >= limit) break;
        }
    }
    return added > 0;
}
// substitutions from equations x = poly (x alone, degree one)
static void find_subst(const vector<BF>& facts, Subst& s)
{
    vector<Poly> eqs;
    for (auto& f : facts) collect_eqs(f, eqs);
    bool progress = true;
    int rounds = 0;
    while (progress && rounds++ < 50) {
        progress = false;
        for (auto& e : eqs) {
            Poly p;
            if (!psubst(e, s, p) || p.t.empty() || p.t.size() > 12) continue;
            // candidate var: appears in exactly one monomial, alone
            map<uint32_t, int> cnt;
            for (auto& t : p.t)
                for (auto& ve : MT.m[t.first]) cnt[ve.first]++;
            int best = -1;
            mpq_class bc;
            if (p.t.size() == 1 && MT.m[p.t[0].first].size() == 1) {
                best = MT.m[p.t[0].first][0].first;
                Poly z;
                for (auto& kv : s) { Subst one; one[best] = z; Poly r; if (psubst(kv.second, one, r)) kv.second = r; }
                s[best] = z;
                progress = true;
                continue;
            }
            for (auto& t : p.t) {
                auto& mm = MT.m[t.first];
                if (mm.size() == 1 && mm[0].second == 1 && cnt[mm[0].first] == 1) {
                    if (best < 0 || (int)mm[0].first > best) { best = mm[0].first; bc = t.second; }
                }
            }
            if (best < 0) continue;
            Poly rest;
            for (auto& t : p.t) {
                auto& mm = MT.m[t.first];
                if (mm.size() == 1 && (int)mm[0].first == best) continue;
                rest.t.push_back({t.first, mpq_class(-t.second / bc)});
            }
            Subst one;
            one[best] = rest;
            for (auto& kv : s) { Poly r; if (psubst(kv.second, one, r)) kv.second = r; }
            s[best] = rest;
            progress = true;
        }
    }
}

static BF atom(const Poly& p, int mask)
{
    BF b;
    b.k = BF::ATOM;
    b.p = p;
    b.mask = mask;
    return b;
}
// path-condition facts related to the variable set (closure)
static void pc_facts(set<uint32_t>& vs, vector<BF>& out, bool all)
{
    set<int> used;
    set<uint32_t> usedx;
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto& kv : pc.allowed) {
            if (kv.second == 7 || used.count(kv.first)) continue;
            const Poly& p = keypoly[kv.first];
            bool hit = all;
            set<uint32_t> pv;
            for (auto& t : p.t)
                for (auto& ve : MT.m[t.first]) { pv.insert(ve.first); if (vs.count(ve.first)) hit = true; }
            if (!hit) continue;
            used.insert(kv.first);
            out.push_back(atom(p, kv.second));
            for (auto v : pv) vs.insert(v);
            ch = true;
        }
        for (auto f : pc.extra) {
            if (usedx.count(f)) continue;
            set<uint32_t> pv;
            f_vars(f, pv);
            bool hit = all;
            for (auto v : pv) if (vs.count(v)) hit = true;
            if (!hit) continue;
            BF b;
            if (!to_bf(f, b)) { usedx.insert(f); continue; }
            usedx.insert(f);
            out.push_back(b);
            for (auto v : pv) vs.insert(v);
            ch = true;
        }
        if (ch) cone(vs);
    }
}
static void def_facts(const set<uint32_t>& vs, vector<BF>& out)
{
    for (auto v : vs)
        if (V[v].def) {
            BF b;
            if (to_bf(V[v].def, b)) out.push_back(b);
        }
}
// fraction elimination: multiply an equation by its denominators and replace
// quotients; returns false if too big
static bool frac_elim(Poly g, Poly& out)
{
    for (int iter = 0; iter < 200; iter++) {
        int top = -1;
        for (auto& t : g.t)
            for (auto& ve : MT.m[t.first])
                if ((V[ve.first].kind == V_QUOT || V[ve.first].kind == V_CQ || V[ve.first].kind == V_SQRT ||
                     V[ve.first].kind == V_ABS) && (int)ve.first > top) {
                    if (V[ve.first].kind == V_SQRT || V[ve.first].kind == V_ABS) { if (ve.second < 2) continue; }
                    top = ve.first;
                }
        if (top < 0) { out = g; return true; }
        uint32_t k = 0;
        map<uint32_t, Poly> co;
        for (auto& t : g.t) {
            uint32_t e = 0;
            vector<pair<uint32_t, uint32_t>> r;
            for (auto& ve : MT.m[t.first]) {
                if ((int)ve.first == top) e = ve.second;
                else r.push_back(ve);
            }
            k = max(k, e);
            co[e].t.push_back({MT.get(r), t.second});
        }
        for (auto& c : co) sort(c.second.t.begin(), c.second.t.end(), [](auto& u, auto& v) { return u.first < v.first; });
        Poly res;
        if (V[top].kind == V_SQRT || V[top].kind == V_ABS) {
            const Poly* xp = poly(V[top].num);
            if (!xp) return false;
            Poly x = *xp;
            if (V[top].kind == V_ABS) { Poly y; if (!pmul(x, x, y)) return false; x = y; }
            Poly s;
            s.t.push_back({mono_of_var(top), 1});
            for (auto& c : co) {
                Poly cur = c.second, nx;
                for (uint32_t i = 0; i < c.first / 2; i++) { if (!pmul(cur, x, nx)) return false; cur = nx; }
                if (c.first % 2) { if (!pmul(cur, s, nx)) return false; cur = nx; }
                res = padd(res, cur, 1);
            }
        }
        else {
            const Poly *np = poly(V[top].num), *dp = poly(V[top].den);
            if (!np || !dp) return false;
            for (auto& c : co) {
                Poly cur = c.second, nx;
                for (uint32_t i = 0; i < c.first; i++) { if (!pmul(cur, *np, nx)) return false; cur = nx; }
                for (uint32_t i = 0; i < k - c.first; i++) { if (!pmul(cur, *dp, nx)) return false; cur = nx; }
                res = padd(res, cur, 1);
            }
        }
        g = res;
        if (g.t.size() > 20000) return false;
    }
    return false;
}

// full nonlinear query over real variables, from the term DAG (not the
// expanded polynomials)
struct NraEnc {
    ostringstream decl, body;
    set<uint32_t> vs;
    unordered_map<nid, string> nm;
    int cnt = 0;
    string term(nid a)
    {
        auto it = nm.find(a);
        if (it != nm.end()) return it->second;
        vector<nid> stk{a};
        while (!stk.empty()) {
            nid x = stk.back();
            if (nm.count(x)) { stk.pop_back(); continue; }
            const Node n = N[x];
            if (n.k == K_CONST) nm[x] = qstr(CQ[n.aux]);
            else if (n.k == K_VAR) { nm[x] = "v" + to_string(n.aux); vs.insert(n.aux); }
            else {
                if (!nm.count(n.a)) { stk.push_back(n.a); continue; }
                if (!nm.count(n.b)) { stk.push_back(n.b); continue; }
                string s = string(n.k == K_ADD ? "(+ " : "(* ") + nm[n.a] + " " + nm[n.b] + ")";
                if (s.size() > 60) {
                    string d = "d" + to_string(cnt++);
                    body << "(define-fun " << d << " () Real " << s << ")\n";
                    nm[x] = d;
                }
                else nm[x] = s;
            }
            stk.pop_back();
        }
        return nm[a];
    }
    string form(uint32_t f)
    {
        const FNode n = FN[f];
        switch (n.k) {
            case F_T: return "true";
            case F_FALSE: return "false";
            case F_REL: {
                string a = term(n.a), b = term(n.b);
                return string("(") + opname(n.mask) + " " + a + " " + b + ")";
            }
            case F_NOT: { string a = form(n.kids[0]); return "(not " + a + ")"; }
            default: {
                string s = n.k == F_AND ? "(and" : "(or";
                for (auto k : n.kids) s += " " + form(k);
                return s + ")";
            }
        }
    }
    string polyterm(const Poly& p)
    {
        if (p.t.empty()) return "0.0";
        string s = "(+ 0.0";
        for (auto& t : p.t) {
            s += " (* " + qstr(t.second);
            for (auto& ve : MT.m[t.first]) {
                vs.insert(ve.first);
                for (uint32_t e = 0; e < ve.second; e++) s += " v" + to_string(ve.first);
            }
            s += ")";
        }
        return s + ")";
    }
};
static string mpf_to_smt(const mpf_class& f)
{
    mpq_class q(f);
    return qstr(q);
}
static Res solve_nra(uint32_t negated_goal, int ms, bool with_pc, map<string, mpf_class>* model,
                     const map<string, mpf_class>* pin = nullptr)
{
    NraEnc e;
    vector<string> asserts;
    asserts.push_back(e.form(negated_goal));
    set<uint32_t> vs = e.vs;
    cone(vs);
    if (with_pc) {
        vector<BF> fs;
        pc_facts(vs, fs, model != nullptr);
        for (auto& kv : pc.allowed) {
            if (kv.second == 7) continue;
            const Poly& p = keypoly[kv.first];
            bool hit = model != nullptr;
            for (auto& t : p.t)
                for (auto& ve : MT.m[t.first]) if (vs.count(ve.first)) hit = true;
            if (hit) asserts.push_back(string("(") + opname(kv.second) + " " + e.polyterm(p) + " 0.0)");
        }
        for (auto f : pc.extra) {
            set<uint32_t> pv;
            f_vars(f, pv);
            bool hit = model != nullptr;
            for (auto v : pv) if (vs.count(v)) hit = true;
            if (hit) asserts.push_back(e.form(f));
        }
        for (auto& kv : pc.raw) {
            string t = e.term(kv.first);
            asserts.push_back(string("(") + opname(kv.second) + " " + t + " 0.0)");
        }
    }
    cone(vs);
    set<uint32_t> done;
    bool more = true;
    while (more) {
        more = false;
        for (auto v : e.vs) vs.insert(v);
        cone(vs);
        for (auto v : vs)
            if (done.insert(v).second) {
                if (V[v].def) asserts.push_back(e.form(V[v].def));
                more = true;
            }
    }
    for (auto v : e.vs) vs.insert(v);
    ostringstream q;
    q << "(set-logic QF_NRA)\n";
    for (auto v : vs) q << "(declare-const v" << v << " Real)\n";
    q << e.body.str();
    for (auto& a : asserts) q << "(assert " << a << ")\n";
    vector<string> names, inps;
    for (auto v : vs)
        if (V[v].kind == V_INPUT) {
            names.push_back("v" + to_string(v));
            inps.push_back(V[v].name);
            if (pin && pin->count(V[v].name)) q << "(assert (= v" << v << " " << mpf_to_smt(pin->at(V[v].name)) << "))\n";
        }
    if (!model) return run_query(q.str(), ms, nullptr, nullptr);
    map<string, string> raw;
    Res r = run_query(q.str(), ms, &raw, &names);
    if (r == SAT) {
        map<string, mpf_class> mm;
        if (!names.empty() && !parse_model(raw["@raw"], mm)) {
            if (getenv("SX_DEBUG")) fprintf(stderr, "cannot parse model: %s\n", raw["@raw"].substr(0, 400).c_str());
            return UNK;
        }
        model->clear();
        for (size_t i = 0; i < names.size(); i++)
            if (mm.count(names[i])) model->insert_or_assign(inps[i], mm.at(names[i]));
    }
    return r;
}

static bool nra_small(uint32_t f)
{
    set<uint32_t> vs;
    f_vars(f, vs);
    return vs.size() <= 400;
}

// Try to prove `goal` on the current path.
static unordered_map<uint32_t, char> goal_nopc;  // proven without path condition
static Res prove_lin(uint32_t neg, bool with_pc, bool lemmas, int ms)
{
    vector<BF> fs;
    BF g;
    if (!to_bf(neg, g)) return UNK;
    set<uint32_t> vs;
    f_vars(neg, vs);
    cone(vs);
    vector<BF> facts;
    if (with_pc) pc_facts(vs, facts, false);
    def_facts(vs, facts);
    if (with_pc) {
        Subst s;
        find_subst(facts, s);
        if (!s.empty()) {
            bool ok = true;
            auto sub = [&](Poly& p) { Poly r; if (psubst(p, s, r)) p = r; else ok = false; };
            bf_polys(g, sub);
            for (auto& f : facts) bf_polys(f, sub);
            if (!ok) return UNK;
        }
    }
    fs.push_back(g);
    for (auto& f : facts) fs.push_back(f);
    if (lemmas && !add_lemmas(fs, 4000)) return SAT;  // nothing to add
    return solve_lin(fs, ms);
}
static Res prove_frac(uint32_t goal, bool with_pc, int ms)
{
    // goal must be a conjunction of equalities
    vector<uint32_t> stk{goal};
    vector<BF> ors;
    Subst s;
    vector<BF> facts;
    if (with_pc) {
        set<uint32_t> vs;
        f_vars(goal, vs);
        cone(vs);
        pc_facts(vs, facts, false);
        find_subst(facts, s);
    }
    while (!stk.empty()) {
        uint32_t f = stk.back();
        stk.pop_back();
        if (FN[f].k == F_AND) { for (auto k : FN[f].kids) stk.push_back(k); continue; }
        if (FN[f].k == F_T) continue;
        if (FN[f].k != F_REL || FN[f].mask != EQ) return UNK;
        Poly d, r, r2;
        if (!rel_poly(FN[f].a, FN[f].b, d)) return UNK;
        if (!s.empty() && !psubst(d, s, d)) return UNK;
        if (!frac_elim(d, r)) return UNK;
        if (!s.empty() && !psubst(r, s, r)) return UNK;
        ors.push_back(atom(r, NE));
    }
    BF g;
    g.k = BF::OR;
    g.kids = ors;
    if (ors.empty()) return UNSAT;
    vector<BF> fs{g};
    if (with_pc) for (auto& f : facts) fs.push_back(f);
    return solve_lin(fs, ms);
}

static bool replay_model(const map<string, mpf_class>& m, string& why);
static map<string, mpf_class> random_point();
static map<string, string> strmodel(const map<string, mpf_class>& m)
{
    map<string, string> r;
    for (auto& kv : m) {
        // prefer exact small rationals
        mpq_class q(kv.second);
        if (q.get_den().get_str().size() < 12) r[kv.first] = q.get_str();
        else {
            ostringstream o;
            o.precision(100);
            o << kv.second;
            r[kv.first] = o.str();
        }
    }
    return r;
}

static bool time_left(double s) { return now() + s < case_deadline; }
static int icp_decide(uint32_t f, map<string, mpf_class>* model);  // 0 infeasible, 1 feasible, -1 unknown

// outcome of an obligation: 0 proven, 1 violated(confirmed), 2 inconclusive
static int decide(F goal, const string& label)
{
    st.asserts++;
    if (goal.id == 0) { st.proven++; st.trivial++; return 0; }
    auto it = goal_nopc.find(goal.id);
    if (it != goal_nopc.end() && it->second == 1) { st.proven++; return 0; }
    F neg = f_not(goal);
    if (curopts.param && goal.id != 1) {
        map<string, mpf_class> m;
        string why;
        int v = icp_decide(neg.id, &m);
        if (v == 0) { st.proven++; return 0; }
        if (v == 1 && replay_model(m, why)) {
            viols.push_back({label, why, strmodel(m), true});
            return 1;
        }
    }
    if (goal.id != 1) {
        Res r = prove_lin(neg.id, false, false, curopts.lin_ms);
        if (r == UNSAT) { goal_nopc[goal.id] = 1; st.proven++; return 0; }
        bool havepc = !pc.allowed.empty() || !pc.extra.empty();
        if (havepc) {
            r = prove_lin(neg.id, true, false, curopts.lin_ms);
            if (r == UNSAT) { st.proven++; return 0; }
        }
        r = prove_frac(goal.id, false, curopts.lin_ms);
        if (r == UNSAT) { st.proven++; return 0; }
        if (havepc) {
            r = prove_frac(goal.id, true, curopts.lin_ms);
            if (r == UNSAT) { st.proven++; return 0; }
        }
        // quick refutation attempts with candidate points
        map<string, mpf_class> m;
        string why;
        for (int k = 0; k < 3; k++) {
            auto pt = random_point();
            if (solve_nra(neg.id, 2000, true, &m, &pt) == SAT) {
                for (auto& kv : pt) if (!m.count(kv.first)) m.insert_or_assign(kv.first, kv.second);
                if (replay_model(m, why)) {
                    viols.push_back({label, why, strmodel(m), true});
                    return 1;
                }
            }
        }
        if (curopts.lemmas && time_left(2)) {
            r = prove_lin(neg.id, true, true, curopts.lin_ms);
            if (r == UNSAT) { st.proven++; return 0; }
        }
    }
    map<string, mpf_class> m;
    string why;
    if (nra_small(neg.id) && time_left(curopts.nra_ms / 1000.0)) {
        Res r = solve_nra(neg.id, curopts.nra_ms, true, &m);
        if (r == UNSAT) { st.proven++; return 0; }
        if (r == SAT && replay_model(m, why)) {
            viols.push_back({label, why, strmodel(m), true});
            return 1;
        }
        if (r == SAT && getenv("SX_DEBUG")) {
            fprintf(stderr, "model did not replay (%s): %s\n", label.c_str(), why.c_str());
            for (auto& kv : strmodel(m)) fprintf(stderr, "   %s=%s\n", kv.first.c_str(), kv.second.substr(0, 40).c_str());
        }
    }
    // last resort: pinned points
    for (int k = 0; k < 12 && time_left(1); k++) {
        auto pt = random_point();
        map<string, mpf_class> part;
        for (auto& kv : pt) if (rng() % 4) part.insert(kv);
        if (solve_nra(neg.id, 1500, true, &m, &part) == SAT) {
            for (auto& kv : pt) if (!m.count(kv.first)) m.insert_or_assign(kv.first, kv.second);
            if (replay_model(m, why)) {
                viols.push_back({label, why, strmodel(m), true});
                return 1;
            }
        }
    }
    st.inconcl++;
    inconcl.push_back(label);
    return 2;
}

// ---------------------------------------------------------------------------
// Branching
static bool apply_pc(nid d, int mask)  // d mask 0; record
{
    const Poly* p = poly(d);
    if (p) {
        int m = mask;
        int k = poly_key(*p, m);
        auto it = pc.allowed.find(k);
        int cur = it == pc.allowed.end() ? 7 : it->second;
        cur &= m;
        pc.allowed[k] = cur;
        return cur != 0;
    }
    auto it = pc.raw.find(d);
    int cur = it == pc.raw.end() ? 7 : it->second;
    pc.raw[d] = cur & mask;
    return (cur & mask) != 0;
}
// -1 unknown, 0 false, 1 true
static int quick(nid d, int mask)
{
    const Poly* p = poly(d);
    if (p) {
        if (p->isconst()) {
            int s = sgn(p->cst());
            int m = s < 0 ? LT : s == 0 ? EQ : GT;
            return (m & mask) ? 1 : 0;
        }
        int m = mask;
        int k = poly_key(*p, m);
        auto it = pc.allowed.find(k);
        if (it == pc.allowed.end()) return -1;
        if (!(it->second & m)) return 0;
        if (!(it->second & ~m)) return 1;
        return -1;
    }
    auto it = pc.raw.find(d);
    if (it == pc.raw.end()) return -1;
    if (!(it->second & mask)) return 0;
    if (!(it->second & ~mask)) return 1;
    return -1;
}
static bool feasible(nid d, int mask)
{
    F f = f_rel(d, ZERO, mask);
    if (f.id == 1) return false;
    if (curopts.param) {
        int v = icp_decide(f.id, nullptr);
        if (v >= 0) return v;
    }
    Res r = prove_lin(f.id, true, false, 1500);
    if (r == UNSAT) return false;
    if (curopts.feas_ms > 0) {
        r = solve_nra(f.id, curopts.feas_ms, true, nullptr);
        if (r == UNSAT) return false;
    }
    return true;
}
static void check_limits()
{
    if (now() > case_deadline) {
        jmp_reason = "time";
        leave(J_END);
    }
}
static bool branch_sym(nid d, int mask)
{
    int q = quick(d, mask);
    if (q >= 0) return q;
    check_limits();
    if (pos < prefix.size()) {
        bool v = prefix[pos].val;
        trace.push_back(prefix[pos]);
        pos++;
        apply_pc(d, v ? mask : 7 ^ mask);
        return v;
    }
    bool ft = feasible(d, mask), ff = feasible(d, 7 ^ mask);
    bool v;
    if (ft && ff) {
        st.forks++;
        v = true;
        trace.push_back({true, true});
    }
    else if (!ft && !ff) {
        jmp_reason = "infeasible";
        leave(J_END);
    }
    else {
        v = ft;
        trace.push_back({v, false});
    }
    pos++;
    apply_pc(d, v ? mask : 7 ^ mask);
    return v;
}
static bool branch_mask(nid a, int mask) { return e_branch(a, ZERO, mask); }
static void spec_branch()
{
    if (curopts.poison_branch) fail("control flow depends on storage that must not be referenced");
}
bool e_branch(nid a, nid b, int mask)
{
    if (isspec(a) || isspec(b)) {
        if (ispoi(a) || ispoi(b)) spec_branch();
        return f_rel(a, b, mask).id == 0;
    }
    if (mode == CONC || (isconst(a) && isconst(b))) {
        int s = csign(a, b);
        int m = s < 0 ? LT : s == 0 ? EQ : GT;
        return m & mask;
    }
    if (a == b) return mask & EQ;
    if (tw::on()) {
        nid r;
        if (tw::canon(a, b, mask, r)) {
            if (isconst(r)) {
                int s = csign(r, ZERO);
                return (s < 0 ? LT : s == 0 ? EQ : GT) & mask;
            }
            return branch_sym(r, mask);
        }
    }
    return branch_sym(e_sub(a, b), mask);
}
// equality of two pairs as one decision (complex equality)
bool e_branch_eq2(nid ar, nid ai, nid br, nid bi)
{
    if (mode == CONC || isspec(ar) || isspec(ai) || isspec(br) || isspec(bi))
        return e_branch(ar, br, EQ) && e_branch(ai, bi, EQ);
    if (ar == br) return e_branch(ai, bi, EQ);
    if (ai == bi) return e_branch(ar, br, EQ);
    nid d1 = e_sub(ar, br), d2 = e_sub(ai, bi);
    int q1 = quick(d1, EQ), q2 = quick(d2, EQ);
    if (q1 == 0 || q2 == 0) return false;
    if (q1 == 1) return e_branch(ai, bi, EQ);
    if (q2 == 1) return e_branch(ar, br, EQ);
    F both = f_and(f_rel(d1, ZERO, EQ), f_rel(d2, ZERO, EQ)), neither = f_not(both);
    for (auto f : pc.extra) if (f == neither.id) return false;
    check_limits();
    nid n2 = e_add(e_mul(d1, d1), e_mul(d2, d2));
    auto record = [&](bool v) {
        if (v) { apply_pc(d1, EQ); apply_pc(d2, EQ); }
        else { pc.extra.push_back(neither.id); apply_pc(n2, GT); }
    };
    if (pos < prefix.size()) {
        bool v = prefix[pos].val;
        trace.push_back(prefix[pos]);
        pos++;
        record(v);
        return v;
    }
    auto feas = [&](F f) {
        if (f.id == 1) return false;
        if (f.id == 0) return true;
        if (prove_lin(f.id, true, false, 1500) == UNSAT) return false;
        if (curopts.feas_ms > 0 && solve_nra(f.id, curopts.feas_ms, true, nullptr) == UNSAT) return false;
        return true;
    };
    bool ft = feas(both), ff = feas(neither), v;
    if (ft && ff) { st.forks++; v = true; trace.push_back({true, true}); }
    else if (!ft && !ff) { jmp_reason = "infeasible"; leave(J_END); v = false; }
    else { v = ft; trace.push_back({v, false}); }
    pos++;
    record(v);
    return v;
}
bool e_is_nan(nid a) { return a == NANV || ispoi(a); }
bool e_is_inf(nid a) { return a == PINF || a == NINF; }
double e_to_double(nid a)
{
    if (a == NANV || ispoi(a)) return NAN;
    if (a == PINF) return INFINITY;
    if (a == NINF) return -INFINITY;
    if (mode == CONC) return cf(a).get_d();
    if (isconst(a)) return cq(a).get_d();
    cut("conversion of a symbolic real to a machine number");
}

// obligation inside arithmetic: node d must satisfy mask
static bool oblige(nid d, int mask, const string& what)
{
    int q = quick(d, mask);
    if (q == 1) return true;
    if (pos < prefix.size()) {  // decided on the path that shares this prefix
        apply_pc(d, mask);
        return true;
    }
    st.oblig++;
    F f = f_rel(d, ZERO, mask);
    if (getenv("SX_DEBUG_OB")) fprintf(stderr, "oblige %s\n", what.c_str());
    int r = decide(f, what);
    if (r == 1) leave(J_END);
    if (!apply_pc(d, mask)) { jmp_reason = "obligation false"; leave(J_END); }
    return true;
}

// ---------------------------------------------------------------------------
// One-parameter mode: elements of Q(t)(s1, s2, ...) with s_i^2 given.  An
// identity of such elements holds wherever the divisions of the program are
// defined; signs are still decided by the solver.
namespace tw {
typedef vector<mpq_class> U;  // low to high, no leading zero
static void trim(U& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
static U add(const U& a, const U& b, const mpq_class& s = 1)
{
    U r(max(a.size(), b.size()));
    for (size_t i = 0; i < a.size(); i++) r[i] += a[i];
    for (size_t i = 0; i < b.size(); i++) r[i] += s * b[i];
    trim(r);
    return r;
}
static U mul(const U& a, const U& b)
{
    if (a.empty() || b.empty()) return {};
    U r(a.size() + b.size() - 1);
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j];
    return r;
}
static void divmod(U a, const U& b, U& q, U& r)
{
    q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, 0);
    while (a.size() >= b.size() && !a.empty()) {
        mpq_class c = a.back() / b.back();
        size_t k = a.size() - b.size();
        q[k] = c;
        for (size_t i = 0; i < b.size(); i++) a[k + i] -= c * b[i];
        trim(a);
    }
    trim(q);
    r = a;
}
static U quo(const U& a, const U& b) { U q, r; divmod(a, b, q, r); return q; }
static U gcd(U a, U b)
{
    while (!b.empty()) {
        U q, r;
        divmod(a, b, q, r);
        a = b;
        b = r;
        if (!b.empty()) { mpq_class l = b.back(); for (auto& x : b) x /= l; }
    }
    if (!a.empty()) { mpq_class l = a.back(); for (auto& x : a) x /= l; }
    return a;
}
static U der(const U& a)
{
    U r;
    for (size_t i = 1; i < a.size(); i++) r.push_back(a[i] * (long)i);
    trim(r);
    return r;
}
// a = f^2 g with g squarefree and primitive up to a squarefree constant
static void sqsplit(const U& a, U& f, U& g)
{
    f = {1};
    g = {1};
    mpq_class lc = a.back();
    U m = a;
    for (auto& x : m) x /= lc;
    // Yun
    U c = gcd(m, der(m)), w = quo(m, c), y = m.size() > 1 ? quo(der(m), c) : U{}, z = add(y, der(w), -1);
    int i = 1;
    while (w.size() > 1) {
        U p = z.empty() ? w : gcd(w, z);
        for (int k = 0; k < i / 2; k++) f = mul(f, p);
        if (i % 2) g = mul(g, p);
        w = quo(w, p);
        if (w.size() <= 1) break;
        y = z.empty() ? U{} : quo(z, p);
        z = add(y, der(w), -1);
        i++;
    }
    // constant: lc = (k/den)^2 * rest
    mpz_class n = lc.get_num() * lc.get_den(), k = 1, rest = n < 0 ? -1 : 1;
    n = ::abs(n);
    for (long p = 2; p < 2000 && mpz_class(p) * p <= n; p++) {
        while (n % (mpz_class(p) * p) == 0) { n /= mpz_class(p) * p; k *= p; }
        if (n % p == 0) { n /= p; rest *= p; }
    }
    mpz_class q = sqrt(n);
    if (q * q == n) k *= q;
    else rest *= n;
    mpq_class kk(k, lc.get_den());
    kk.canonicalize();
    for (auto& x : f) x *= kk;
    for (auto& x : g) x *= mpq_class(rest);
}
typedef vector<uint32_t> SS;  // product of square roots: sorted variables
struct El {
    map<SS, U> n;
    U d{1};
};
static const size_t MAXT = 40, MAXD = 80;
struct Big {};
static map<uint32_t, El> sq;      // square of a root variable
static vector<unique_ptr<El>> memo;
static vector<char> state;        // 0 unknown 1 known 2 not in the field
static map<uint32_t, El> vdef;    // value of a quotient variable
static int pvar = -1;
static bool on() { return curopts.param && mode == SYM; }
static void icp_reset();
static void reset() { icp_reset(); sq.clear(); memo.clear(); state.clear(); vdef.clear(); pvar = -1; }
static void norm(El& e)
{
    for (auto it = e.n.begin(); it != e.n.end();) {
        if (it->second.empty()) it = e.n.erase(it);
        else ++it;
    }
    if (e.n.empty()) { e.d = {1}; return; }
    if (e.n.size() > MAXT) throw Big();
    if (e.d.size() > 1) {
        U g = e.d;
        for (auto& x : e.n) { g = gcd(g, x.second); if (g.size() <= 1) break; }
        if (g.size() > 1) {
            e.d = quo(e.d, g);
            for (auto& x : e.n) x.second = quo(x.second, g);
        }
    }
    mpq_class l = e.d.back();
    if (l != 1) {
        for (auto& x : e.d) x /= l;
        for (auto& y : e.n) for (auto& x : y.second) x /= l;
    }
    size_t dg = e.d.size();
    for (auto& x : e.n) dg = max(dg, x.second.size());
    if (dg > MAXD) throw Big();
}
static El cst(const mpq_class& q) { El e; if (q != 0) e.n[{}] = {q}; return e; }
static El eadd(const El& a, const El& b)
{
    El r;
    bool same = a.d == b.d;
    r.d = same ? a.d : mul(a.d, b.d);
    for (auto& x : a.n) r.n[x.first] = same ? x.second : mul(x.second, b.d);
    for (auto& x : b.n) { auto& t = r.n[x.first]; t = add(t, same ? x.second : mul(x.second, a.d)); }
    norm(r);
    return r;
}
static El emul(const El& a, const El& b)
{
    El r;
    r.d = mul(a.d, b.d);
    vector<pair<El, vector<uint32_t>>> extra;
    map<SS, El> later;
    for (auto& x : a.n)
        for (auto& y : b.n) {
            U c = mul(x.second, y.second);
            SS s, both;
            set_symmetric_difference(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), back_inserter(s));
            set_intersection(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), back_inserter(both));
            if (both.empty()) { auto& t = r.n[s]; t = add(t, c); continue; }
            El m;
            m.n[s] = c;
            for (auto v : both) m = emul(m, sq[v]);
            // accumulate over the common denominator
            El t;
            t.d = m.d;
            t.n = m.n;
            later.emplace(SS(), El());
            later[SS()] = eadd(later[SS()], t);
        }
    norm(r);
    if (!later.empty()) {
        El t = later[SS()], di;
        di.d = mul(a.d, b.d);
        di.n[{}] = {1};
        norm(di);
        r = eadd(r, emul(t, di));
    }
    return r;
}
// value of an element without t (margin far above the working precision); 2 = contains t
static bool evalc(const El& e, mpf_class& v, int depth = 0)
{
    if (e.d.size() > 1 || depth > 20) return false;
    v = mpf_class(0, PREC);
    for (auto& x : e.n) {
        if (x.second.size() > 1) return false;
        mpf_class m(x.second[0], PREC);
        for (auto r : x.first) {
            mpf_class q(0, PREC);
            if (!evalc(sq[r], q, depth + 1)) return false;
            if (q < 0) q = 0;
            m *= mpf_class(sqrt(q), PREC);
        }
        v += m;
    }
    v /= mpf_class(e.d[0], PREC);
    return true;
}
static int csgn(const El& e)
{
    if (e.n.empty()) return 0;
    mpf_class v(0, PREC);
    if (!evalc(e, v)) return 2;
    static const mpf_class lo("1e-150", PREC);
    if (abs(v) < lo) return 2;
    return sgn(v);
}
static El eneg(El a) { for (auto& x : a.n) for (auto& y : x.second) y = -y; return a; }
static El einv(const El& a)
{
    if (a.n.empty()) throw Big();
    uint32_t top = 0;
    bool any = false;
    for (auto& x : a.n) if (!x.first.empty()) { any = true; top = max(top, x.first.back()); }
    El r;
    if (!any) {
        r.d = a.n.begin()->second;
        r.n[{}] = a.d;
        norm(r);
        return r;
    }
    // a = p + q s
    El p, q;
    p.d = q.d = a.d;
    for (auto& x : a.n) {
        if (!x.first.empty() && x.first.back() == top) { SS s(x.first.begin(), x.first.end() - 1); q.n[s] = x.second; }
        else p.n[x.first] = x.second;
    }
    norm(p);
    norm(q);
    El nn = eadd(emul(p, p), eneg(emul(emul(q, q), sq[top])));
    El s;
    s.n[{top}] = {1};
    return emul(eadd(p, eneg(emul(q, s))), einv(nn));
}
static const El* get(nid a)
{
    if (memo.size() < N.size()) { memo.resize(N.size()); state.resize(N.size(), 0); }
    if (state[a]) return state[a] == 1 ? memo[a].get() : nullptr;
    vector<nid> stk{a};
    while (!stk.empty()) {
        nid x = stk.back();
        if (state[x]) { stk.pop_back(); continue; }
        const Node n = N[x];
        auto put = [&](El e) { memo[x] = make_unique<El>(move(e)); state[x] = 1; };
        if (n.k == K_CONST) put(cst(CQ[n.aux]));
        else if (n.k == K_SPEC) state[x] = 2;
        else if (n.k == K_VAR) {
            uint32_t v = n.aux;
            if (V[v].kind == V_INPUT && (pvar < 0 || pvar == (int)v)) {
                pvar = v;
                El e;
                e.n[{}] = {0, 1};
                put(e);
            }
            else if (vdef.count(v)) put(vdef[v]);
            else if (sq.count(v)) {
                El e;
                e.n[{v}] = {1};
                put(e);
            }
            else state[x] = 2;
        }
        else {
            if (!state[n.a]) { stk.push_back(n.a); continue; }
            if (!state[n.b]) { stk.push_back(n.b); continue; }
            if (state[n.a] == 2 || state[n.b] == 2) state[x] = 2;
            else {
                try { put(n.k == K_ADD ? eadd(*memo[n.a], *memo[n.b]) : emul(*memo[n.a], *memo[n.b])); }
                catch (Big&) { state[x] = 2; }
            }
        }
        stk.pop_back();
    }
    return state[a] == 1 ? memo[a].get() : nullptr;
}
static bool busy = false;
static nid horner(const U& u)
{
    nid r = ZERO, t = pvar < 0 ? ZERO : V[pvar].node;
    for (size_t i = u.size(); i-- > 0;) r = e_add(e_mul(r, t), mkc(u[i]));
    return r;
}
static nid numnode(const El& e)
{
    nid r = ZERO;
    for (auto& x : e.n) {
        nid m = horner(x.second);
        for (auto v : x.first) m = e_mul(m, V[v].node);
        r = e_add(r, m);
    }
    return r;
}
static nid node(const El& e)
{
    nid n = numnode(e);
    if (e.d.size() <= 1) return n;
    if (isconst(n) && cq(n) == 0) return n;
    nid d = horner(e.d);
    auto key = make_pair(n, d);
    auto it = divmemo.find(key);
    if (it != divmemo.end()) return it->second;
    nid q = newvar("q", V_QUOT);
    uint32_t v = N[q].aux;
    V[v].num = n;
    V[v].den = d;
    vdef[v] = e;
    bool was = busy;
    busy = true;
    F f = f_rel(e_mul(q, d), n, EQ);
    busy = was;
    V[v].def = f.id;
    divmemo[key] = q;
    return q;
}
// a node with the sign of e
static nid signnode(const El& e, int mask)
{
    El r = e;
    if (mask != EQ && mask != NE && e.d.size() > 1) {
        U f, g;
        sqsplit(e.d, f, g);
        for (auto& x : r.n) x.second = mul(x.second, g);
    }
    r.d = {1};
    // one term: the sign of a root is the sign of its square
    if (r.n.size() == 1 && !r.n.begin()->first.empty()) {
        SS s = r.n.begin()->first;
        El c;
        c.n[{}] = r.n.begin()->second;
        for (auto v : s) {
            auto& q = sq[v];
            if (q.n.size() != 1 || !q.n.begin()->first.empty() || q.d.size() > 1) return numnode(r);
            c = emul(c, q);
        }
        return numnode(c);
    }
    return numnode(r);
}
static nid root(const El& e)  // e >= 0 is known
{
    if (e.n.empty()) return ZERO;
    El g;
    nid f = ONE;
    if (e.n.size() == 1 && e.n.begin()->first.empty()) {
        U a, b;
        sqsplit(mul(e.n.begin()->second, e.d), a, b);
        El x;
        x.n[{}] = a;
        x.d = e.d;
        norm(x);
        f = e_abs(node(x));
        g.n[{}] = b;
    }
    else g = e;
    if (g.n.size() == 1 && g.n.begin()->first.empty() && g.d.size() <= 1 && g.n.begin()->second.size() == 1 && g.n.begin()->second[0] == 1) return f;
    nid gn = node(g);
    auto it = sqrtmemo.find(gn);
    nid s;
    if (it != sqrtmemo.end()) s = it->second;
    else {
        s = newvar("s", V_SQRT);
        V[N[s].aux].num = gn;
        sq[N[s].aux] = g;
        bool was = busy;
        busy = true;
        F d = f_and(f_rel(s, ZERO, GE), f_rel(e_mul(s, s), gn, EQ));
        busy = was;
        V[N[s].aux].def = d.id;
        sqrtmemo[gn] = s;
    }
    return e_mul(f, s);
}
static bool canon(nid a, nid b, int mask, nid& r)
{
    if (busy) return false;
    nid d = e_sub(a, b);
    const El* e = get(d);
    if (!e) return false;
    busy = true;
    bool ok = true;
    try {
        El c = *e;
        int s = csgn(c);
        r = s == 2 ? signnode(c, mask) : s == 0 ? ZERO : s > 0 ? ONE : mkc(-1);
    }
    catch (Big&) { ok = false; }
    busy = false;
    return ok;
}

// ---- sign decisions over an interval of t: branch and bound with interval
// arithmetic (Taylor form of the polynomials, outward rounding)
struct I { double lo, hi; };
static double dn(double x) { return nextafter(x, -INFINITY); }
static double up(double x) { return nextafter(x, INFINITY); }
static I iadd(I a, I b) { return {dn(a.lo + b.lo), up(a.hi + b.hi)}; }
static I imul(I a, I b)
{
    double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    double l = p[0], h = p[0];
    for (double x : p) { if (std::isnan(x)) return {-INFINITY, INFINITY}; l = min(l, x); h = max(h, x); }
    return {dn(l), up(h)};
}
static I idiv(I a, I b)
{
    if (b.lo <= 0 && b.hi >= 0) return {-INFINITY, INFINITY};
    return imul(a, {dn(1 / b.hi), up(1 / b.lo)});
}
static I isqrt(I a) { return {a.lo <= 0 ? 0 : dn(std::sqrt(a.lo)), a.hi <= 0 ? 0 : up(std::sqrt(a.hi))}; }
struct Piece { double m, r; map<uint32_t, I> roots; };
static const int TP = 640;
static map<int, pair<int, El>> keyel;     // polynomials of the path condition
static map<uint32_t, pair<int, El>> relel;
static void icp_reset();
struct CU { U u;  vector<mpf_class> c; };
static unordered_map<const void*, CU> cu;  // converted coefficients; the copy of u guards against a reused address
static void icp_reset() { keyel.clear(); relel.clear(); cu.clear(); }
static I evalT(const vector<mpf_class>& cc, const Piece& p, int prec, double& err)
{
    size_t n = cc.size();
    vector<mpf_class> c;
    c.reserve(n);
    for (auto& x : cc) c.emplace_back(x, prec);
    mpf_class m(p.m, prec), S(0, prec), am(std::fabs(p.m) + 1, prec), t(0, prec);
    for (size_t i = n; i-- > 0;) { t = abs(c[i]); S = S * am + t; }
    size_t top = p.r > 0 ? n : 1;
    for (size_t k = 0; k < top && k + 1 < n; k++)
        for (size_t i = n - 1; i-- > k;) { mpf_mul(t.get_mpf_t(), c[i + 1].get_mpf_t(), m.get_mpf_t()); mpf_add(c[i].get_mpf_t(), c[i].get_mpf_t(), t.get_mpf_t()); }
    mpf_class e(0, prec);
    mpf_div_2exp(e.get_mpf_t(), S.get_mpf_t(), prec - 40);
    err = up(e.get_d());
    double c0 = c[0].get_d();
    I r = {dn(dn(c0) - err), up(up(c0) + err)};
    double rk = 1;
    for (size_t k = 1; k < n && p.r > 0; k++) {
        rk = up(rk * p.r);
        double a = c[k].get_d(), b = up(up(std::fabs(a)) + err);
        double w = up(b * rk);
        if (k % 2) r = iadd(r, {-w, w});
        else if (a >= 0) r = iadd(r, {-up(err * rk), w});
        else r = iadd(r, {-w, up(err * rk)});
    }
    return r;
}
static I evalU(const U& u, const Piece& p)
{
    if (u.empty()) return {0, 0};
    CU& q = cu[&u];
    if (q.u != u) {
        q.u = u;
        q.c.clear();
        for (auto& x : u) q.c.emplace_back(mpf_class(x, TP));
    }
    double err = 0;
    I r = evalT(q.c, p, 192, err);
    if (r.lo <= 0 && r.hi >= 0 && (p.r == 0 || err * 8 > r.hi - r.lo || std::isnan(r.lo) || std::isnan(r.hi))) r = evalT(q.c, p, TP, err);
    return r;
}
static I evalEl(const El& e, Piece& p);
static I rootI(uint32_t v, Piece& p)
{
    auto it = p.roots.find(v);
    if (it != p.roots.end()) return it->second;
    I r = isqrt(evalEl(sq[v], p));
    p.roots[v] = r;
    return r;
}
static I evalEl(const El& e, Piece& p)
{
    I r = {0, 0};
    for (auto& x : e.n) {
        I m = evalU(x.second, p);
        for (auto v : x.first) m = imul(m, rootI(v, p));
        r = iadd(r, m);
    }
    if (e.d.size() > 1 || (e.d.size() == 1 && e.d[0] != 1)) r = idiv(r, evalU(e.d, p));
    return r;
}
// 1 holds, 0 fails on the whole piece, -1 unknown
static int rel3(I v, int mask)
{
    int poss = 0;
    if (std::isnan(v.lo) || std::isnan(v.hi)) return -1;
    if (v.lo < 0) poss |= LT;
    if (v.hi > 0) poss |= GT;
    if (v.lo <= 0 && v.hi >= 0) poss |= EQ;
    if (!(poss & mask)) return 0;
    if (!(poss & ~mask)) return 1;
    return -1;
}
static const El* of_key(int k)
{
    auto it = keyel.find(k);
    if (it == keyel.end()) {
        pair<int, El> r{1, El()};
        try {
            for (auto& x : keypoly[k].t) {
                El m = cst(x.second);
                for (auto& f : MT.m[x.first]) {
                    const El* q = get(V[f.first].node);
                    if (!q) throw Big();
                    El b = *q;
                    for (uint32_t i = 0; i < f.second; i++) m = emul(m, b);
                }
                r.second = eadd(r.second, m);
            }
        }
        catch (Big&) { r.first = 0; }
        it = keyel.emplace(k, r).first;
    }
    return it->second.first ? &it->second.second : nullptr;
}
static const El* of_rel(uint32_t f)
{
    auto it = relel.find(f);
    if (it == relel.end()) {
        pair<int, El> r{0, El()};
        nid d = e_sub(FN[f].a, FN[f].b);
        const El* q = get(d);
        if (q) r = {1, *q};
        it = relel.emplace(f, r).first;
    }
    return it->second.first ? &it->second.second : nullptr;
}
static int form3(uint32_t f, Piece& p)
{
    const FNode& n = FN[f];
    switch (n.k) {
        case F_T: return 1;
        case F_FALSE: return 0;
        case F_REL: { auto mask = n.mask; const El* e = of_rel(f); return e ? rel3(evalEl(*e, p), mask) : -1; }
        case F_NOT: { auto k = n.kids[0]; int v = form3(k, p); return v < 0 ? v : !v; }
        case F_AND: { auto ks = n.kids; int r = 1; for (auto k : ks) { int v = form3(k, p); if (v == 0) return 0; if (v < 0) r = -1; } return r; }
        case F_OR: { auto ks = n.kids; int r = 0; for (auto k : ks) { int v = form3(k, p); if (v == 1) return 1; if (v < 0) r = -1; } return r; }
    }
    return -1;
}
static int icp(uint32_t goal, map<string, mpf_class>* model)
{
    if (pvar < 0) {
        // the parameter has not been used in a relation yet
        if (input_order.size() != 1) return -1;
        nid t = inputs[input_order[0]];
        if (!get(t)) return -1;
    }
    struct At { const El* e; int mask; };
    vector<At> at;
    double lo = -INFINITY, hi = INFINITY;
    bool pin = false;
    for (auto& x : pc.allowed) {
        if (x.second == 7) continue;
        const El* e = of_key(x.first);
        if (!e) { pin = true; continue; }
        if (x.second == EQ) pin = true;
        if (e->d.size() <= 1 && e->n.size() == 1 && e->n.begin()->first.empty() && e->n.begin()->second.size() == 2) {
            auto& u = e->n.begin()->second;
            mpq_class z = -u[0] / u[1];
            int s = sgn(u[1]) * (e->d.empty() ? 1 : sgn(e->d[0]));
            bool ge = !(x.second & (s > 0 ? LT : GT)), le = !(x.second & (s > 0 ? GT : LT));
            if (ge) lo = max(lo, dn(z.get_d()));
            if (le) hi = min(hi, up(z.get_d()));
        }
        at.push_back({e, x.second});
    }
    for (auto& x : pc.raw) {
        if (x.second == 7) continue;
        const El* e = get(x.first);
        if (e) at.push_back({e, x.second});
        else pin = true;
    }
    if (!(lo > -1e6 && hi < 1e6) || pin) return -1;
    if (lo > hi) return 0;
    st.icp++;
    double t0 = now();
    vector<pair<double, double>> work{{lo, hi}}, next;
    double minw = (hi - lo) / (1 << 22);
    bool open = false;
    int evals = 0, res = -2;
    auto test = [&](Piece& p) {  // 0 no, 1 all hold, -1
        int r = 1;
        for (auto& a : at) {
            int v = rel3(evalEl(*a.e, p), a.mask);
            if (v == 0) return 0;
            if (v < 0) r = -1;
        }
        for (auto f : pc.extra) {
            int v = form3(f, p);
            if (v == 0) return 0;
            if (v < 0) r = -1;
        }
        int v = form3(goal, p);
        if (v == 0) return 0;
        return v < 0 ? -1 : r;
    };
    // depth-first from the left with a look at the midpoints
    while (!work.empty() && res == -2) {
        auto w = work.back();
        work.pop_back();
        if (++evals > 1200 || now() - t0 > 3) { open = true; break; }
        double m = w.first + (w.second - w.first) / 2, r = max(up(w.second - m), up(m - w.first));
        Piece p{m, r, {}};
        int v = test(p);
        if (v == 0) continue;
        if (v == 1) { res = 1; if (model) (*model)[input_order[0]] = mpf_class(m, PREC); break; }
        Piece q{m, 0, {}};
        if (test(q) == 1) { res = 1; if (model) (*model)[input_order[0]] = mpf_class(m, PREC); break; }
        if (w.second - w.first < minw) { open = true; if (evals > 300) break; continue; }
        work.push_back({w.first, m});
        work.push_back({m, w.second});
    }
    if (res == -2) res = open ? -1 : 0;
    st.solver_s += now() - t0;
    st.queries++;
    if (res == 0) st.unsat++;
    else if (res == 1) st.sat++;
    else st.unknown++;
    return res;
}
}  // namespace tw
static int icp_decide(uint32_t f, map<string, mpf_class>* model) { return tw::on() ? tw::icp(f, model) : -1; }
nid e_div(nid a, nid b)
{
    if ((isspec(a) || isspec(b)) && isnum(b, 1)) return a;
    if (ispoi(a) || ispoi(b)) return TAINT;
    if (a == NANV || b == NANV) return NANV;
    bool ia = a == PINF || a == NINF, ib = b == PINF || b == NINF;
    if (ia && ib) return NANV;
    if (ib) return ZERO;
    if (ia) {
        bool neg = branch_mask(b, LT);
        return neg ? (a == PINF ? NINF : PINF) : a;
    }
    if (mode == CONC) {
        if (fsign(cf(b), mpf_class(0, PREC)) == 0) {
            if (curopts.strict_div) fail("division by zero");
            int s = fsign(cf(a), mpf_class(0, PREC));
            return s == 0 ? NANV : s > 0 ? PINF : NINF;
        }
        return mkf(mpf_class(cf(a) / cf(b), PREC));
    }
    if (isconst(b)) {
        if (cq(b) == 0) {
            if (curopts.strict_div) fail("division by zero");
            if (branch_mask(a, EQ)) return NANV;
            return branch_mask(a, GT) ? PINF : NINF;
        }
        return e_mul(mkc(1 / cq(b)), a);
    }
    if (curopts.strict_div) oblige(b, NE, "division by a value that may be zero");
    else if (branch_mask(b, EQ)) {
        if (branch_mask(a, EQ)) return NANV;
        return branch_mask(a, GT) ? PINF : NINF;
    }
    if (a == b) return ONE;
    if (a == ZERO) return ZERO;
    if (tw::on()) {
        const tw::El *x = tw::get(a), *y = tw::get(b);
        if (x && y) {
            try { tw::El u = *x, v = *y; return tw::node(tw::emul(u, tw::einv(v))); }
            catch (tw::Big&) {}
        }
    }
    // c*x / y -> c * (x/y)
    if (N[a].k == K_MUL && isconst(N[a].a)) { nid c = N[a].a, x = N[a].b; return e_mul(c, e_div(x, b)); }
    if (N[b].k == K_MUL && isconst(N[b].a)) { nid c = N[b].a, x = N[b].b; return e_mul(mkc(1 / cq(c)), e_div(a, x)); }
    auto key = make_pair(a, b);
    auto it = divmemo.find(key);
    if (it != divmemo.end()) return it->second;
    nid q = newvar("q", V_QUOT);
    auto& vi = V[N[q].aux];
    vi.num = a;
    vi.den = b;
    nid qb = e_mul(q, b);
    F f = f_rel(qb, a, EQ);
    V[N[q].aux].def = f.id;
    divmemo[key] = q;
    return q;
}
void e_cdiv(nid ar, nid ai, nid br, nid bi, nid& qr, nid& qi)
{
    for (nid x : {ar, ai, br, bi})
        if (ispoi(x)) { qr = qi = TAINT; return; }
    bool anyspec = isspec(ar) || isspec(ai) || isspec(br) || isspec(bi);
    if (!anyspec && bi == ZERO) { qr = e_div(ar, br); qi = e_div(ai, br); return; }
    nid n = e_add(e_mul(br, br), e_mul(bi, bi));
    if (anyspec || mode == CONC || isconst(n) || tw::on()) {
        nid x = e_add(e_mul(ar, br), e_mul(ai, bi)), y = e_sub(e_mul(ai, br), e_mul(ar, bi));
        qr = e_div(x, n);
        qi = e_div(y, n);
        return;
    }
    if (curopts.strict_div) oblige(n, NE, "complex division by a value that may be zero");
    else if (branch_mask(n, EQ)) { qr = qi = NANV; return; }
    array<nid, 4> key{ar, ai, br, bi};
    auto it = cdivmemo.find(key);
    if (it != cdivmemo.end()) { qr = it->second.first; qi = it->second.second; return; }
    qr = newvar("qr", V_CQ);
    qi = newvar("qi", V_CQ);
    uint32_t vr = N[qr].aux, vi = N[qi].aux;
    nid nr = e_add(e_mul(ar, br), e_mul(ai, bi)), ni = e_sub(e_mul(ai, br), e_mul(ar, bi));
    V[vr].num = nr; V[vr].den = n;
    V[vi].num = ni; V[vi].den = n;
    F f1 = f_rel(e_sub(e_mul(qr, br), e_mul(qi, bi)), ar, EQ);
    F f2 = f_rel(e_add(e_mul(qr, bi), e_mul(qi, br)), ai, EQ);
    F f = f_and(f1, f2);
    V[vr].def = f.id;
    V[vi].def = f.id;
    cdivmemo[key] = {qr, qi};
}
void e_csqrt(nid ar, nid ai, nid& qr, nid& qi)
{
    if (isspec(ar) || isspec(ai)) { qr = qi = NANV; return; }
    if (ai == ZERO) {
        if (branch_mask(ar, GE)) { qr = e_sqrt(ar); qi = ZERO; }
        else { qr = ZERO; qi = e_sqrt(e_neg(ar)); }
        return;
    }
    if (mode == CONC) {
        mpf_class x = cf(ar), y = cf(ai);
        mpf_class r(sqrt(mpf_class(x * x + y * y, PREC)), PREC);
        mpf_class a((r + x) / 2, PREC), b((r - x) / 2, PREC);
        if (a < 0) a = 0;
        if (b < 0) b = 0;
        mpf_class u(sqrt(a), PREC), v(sqrt(b), PREC);
        if (y < 0) v = -v;
        qr = mkf(u);
        qi = mkf(v);
        return;
    }
    if (tw::on()) {
        if (e_branch(ai, ZERO, EQ)) { e_csqrt(ar, ZERO, qr, qi); return; }
        nid h = e_sqrt(e_add(e_mul(ar, ar), e_mul(ai, ai)), true);
        qr = e_sqrt(e_mul(mk_rat(1, 2), e_add(h, ar)), true);
        qi = e_div(ai, e_mul(mk_int(2), qr));
        return;
    }
    auto key = make_pair(ar, ai);
    auto it = csqrtmemo.find(key);
    if (it != csqrtmemo.end()) { qr = it->second.first; qi = it->second.second; return; }
    qr = newvar("sr", V_CSQ);
    qi = newvar("si", V_CSQ);
    F f = f_all({f_rel(qr, ZERO, GE), f_rel(e_sub(e_mul(qr, qr), e_mul(qi, qi)), ar, EQ),
                 f_rel(e_mul(mk_int(2), e_mul(qr, qi)), ai, EQ),
                 f_or(f_rel(qr, ZERO, GT), f_rel(qi, ZERO, GE))});
    V[N[qr].aux].def = f.id;
    V[N[qi].aux].def = f.id;
    csqrtmemo[key] = {qr, qi};
}
static bool perfect(const mpq_class& q, mpq_class& r)
{
    if (q < 0) return false;
    mpz_class a = sqrt(q.get_num()), b = sqrt(q.get_den());
    if (a * a == q.get_num() && b * b == q.get_den()) { r = mpq_class(a, b); return true; }
    return false;
}
// a sum of squares, as written
static bool sos(nid a, int depth = 0)
{
    const Node& n = N[a];
    if (depth > 40) return false;
    switch (n.k) {
        case K_CONST: return cq(a) >= 0;
        case K_VAR: return V[n.aux].kind == V_SQRT || V[n.aux].kind == V_ABS;
        case K_ADD: return sos(n.a, depth + 1) && sos(n.b, depth + 1);
        case K_MUL: return n.a == n.b || (sos(n.a, depth + 1) && sos(n.b, depth + 1));
        default: return false;
    }
}
nid e_sqrt(nid a, bool nonneg)
{
    if (ispoi(a)) return TAINT;
    if (a == NANV || a == PINF) return a;
    if (a == NINF) return NANV;
    if (mode == CONC) {
        if (fsign(cf(a), mpf_class(0, PREC)) < 0) {
            if (curopts.strict_div) fail("square root of a negative value");
            return NANV;
        }
        mpf_class x = cf(a);
        if (x < 0) x = 0;
        return mkf(mpf_class(sqrt(x), PREC));
    }
    if (isconst(a)) {
        if (cq(a) < 0) {
            if (curopts.strict_div) fail("square root of a negative value");
            return NANV;
        }
        mpq_class r;
        if (perfect(cq(a), r)) return mkc(r);
        nonneg = true;
    }
    if (!nonneg && !sos(a)) {
        if (curopts.strict_div) oblige(a, GE, "square root of a value that may be negative");
        else if (branch_mask(a, LT)) return NANV;
    }
    if (tw::on()) {
        const tw::El* x = tw::get(a);
        if (x) {
            try { tw::El e = *x; return tw::root(e); }
            catch (tw::Big&) {}
        }
    }
    auto it = sqrtmemo.find(a);
    if (it != sqrtmemo.end()) return it->second;
    nid s = newvar("s", V_SQRT);
    V[N[s].aux].num = a;
    F f = f_and(f_rel(s, ZERO, GE), f_rel(e_mul(s, s), a, EQ));
    V[N[s].aux].def = f.id;
    sqrtmemo[a] = s;
    return s;
}
nid e_abs(nid a)
{
    if (isspec(a)) return a == NINF ? PINF : a == POISON ? (nid)TAINT : a;
    if (mode == CONC) return mkf(mpf_class(abs(cf(a)), PREC));
    if (isconst(a)) return mkc(abs(cq(a)));
    int q = quick(a, GE);
    if (q == 1) return a;
    if (quick(a, LE) == 1) return e_neg(a);
    if (tw::on() && tw::get(a)) return e_branch(a, ZERO, GE) ? a : e_neg(a);
    // canonical sign
    nid b = a;
    if (N[a].k == K_MUL && isconst(N[a].a) && cq(N[a].a) == -1) b = N[a].b;
    if (N[b].k == K_VAR && (V[N[b].aux].kind == V_ABS || V[N[b].aux].kind == V_SQRT)) return b;
    auto it = absmemo.find(b);
    if (it != absmemo.end()) return it->second;
    nid t = newvar("abs", V_ABS);
    V[N[t].aux].num = b;
    F f = f_and(f_rel(t, ZERO, GE), f_or(f_rel(t, b, EQ), f_rel(t, e_neg(b), EQ)));
    V[N[t].aux].def = f.id;
    absmemo[b] = t;
    return t;
}
nid e_hypot(nid a, nid b)
{
    if (isspec(a) || isspec(b)) {
        if (ispoi(a) || ispoi(b)) return TAINT;
        if (e_is_inf(a) || e_is_inf(b)) return PINF;
        return NANV;
    }
    if (b == ZERO) return e_abs(a);
    if (a == ZERO) return e_abs(b);
    return e_sqrt(e_add(e_mul(a, a), e_mul(b, b)), true);
}
nid e_pow(nid base, nid expo)
{
    double e = e_to_double(expo);
    if (isspec(base)) return base;
    long n = (long)e;
    if (n != e) cut("non-integral power");
    nid r = ONE;
    if (mode == SYM && isconst(base)) {
        mpq_class b = cq(base), x = 1;
        for (long i = 0; i < labs(n); i++) x *= b;
        if (n < 0) x = 1 / x;
        return mkc(x);
    }
    for (long i = 0; i < labs(n); i++) r = e_mul(r, base);
    return n < 0 ? e_div(ONE, r) : r;
}
nid e_unary_const(int w, nid a)
{
    if (isspec(a)) return a;
    if (mode == SYM && !isconst(a)) cut("log2/ceil/floor of a symbolic value");
    double d = e_to_double(a);
    if (w == 0) return mk_dbl(std::log2(d));
    return mk_dbl(w == 1 ? std::ceil(d) : std::floor(d));
}

// ---------------------------------------------------------------------------
// Harness interface
static mpf_class random_value()
{
    int r = rng() % 20;
    long n, d = 1;
    if (r == 0) n = 0;
    else if (r < 10) n = (long)(rng() % 7) - 3;
    else { n = (long)(rng() % 41) - 20; d = 1 + rng() % 8; }
    return mpf_class(mpq_class(n, d), PREC);
}
SReal var(const string& name)
{
    ensure();
    auto it = inputs.find(name);
    if (it != inputs.end()) return R(it->second);
    nid v;
    if (mode == CONC) {
        mpf_class val(0, PREC);
        if (conc_values && conc_values->count(name)) val = conc_values->at(name);
        else if (conc_random) val = random_value();
        conc_used.insert_or_assign(name, val);
        v = mkf(val);
    }
    else {
        v = newvar(name, V_INPUT);
        input_order.push_back(name);
    }
    inputs[name] = v;
    return R(v);
}
bool concrete_mode() { return mode == CONC; }
static map<string, mpf_class> random_point()
{
    map<string, mpf_class> m;
    for (auto& n : input_order) m.insert_or_assign(n, random_value());
    return m;
}
void assume(F f)
{
    if (mode == CONC) {
        if (f.id != 0) leave(J_DISCARD);
        return;
    }
    if (f.id == 0) return;
    if (f.id == 1) { jmp_reason = "assume false"; leave(J_DISCARD); }
    const FNode n = FN[f.id];
    if (n.k == F_REL) {
        nid d = e_sub(n.a, n.b);
        const Poly* p = poly(d);
        if (p && p->isconst()) {
            int s = sgn(p->cst());
            int m = s < 0 ? LT : s == 0 ? EQ : GT;
            if (!(m & n.mask)) { jmp_reason = "assume false"; leave(J_DISCARD); }
            return;
        }
        if (!apply_pc(d, n.mask)) { jmp_reason = "assume false"; leave(J_DISCARD); }
    }
    else if (n.k == F_AND) for (auto k : n.kids) assume(F{k});
    else pc.extra.push_back(f.id);
}
static string last_labels;
void check(F f, const string& label)
{
    if (mode == CONC) {
        st.asserts++;
        if (f.id != 0) conc_failures.push_back(label);
        return;
    }
    check_limits();
    if (pos < prefix.size()) return;
    decide(f, label);
}
void check_concrete(bool ok, const string& label)
{
    if (mode == CONC) {
        st.asserts++;
        if (!ok) conc_failures.push_back(label);
        return;
    }
    if (pos < prefix.size()) return;
    decide(ok ? f_true() : f_false(), label);
}
void Batch::eq(const SReal& a, const SReal& b, const string& l)
{
    if (a.id == b.id && mode == SYM && !isspec(a.id) && !isconst(a.id)) {
        // keep the relation: the solver sees both sides
        auto key = make_tuple(a.id, b.id, (int)EQ);
        auto it = relmemo.find(key);
        if (it == relmemo.end()) {
            FN.push_back({F_REL, a.id, b.id, EQ, {}});
            it = relmemo.emplace(key, FN.size() - 1).first;
        }
        add(F{it->second}, l);
        return;
    }
    add(sx::eq(a, b), l);
}
void Batch::eq(const SComplex& a, const SComplex& b, const string& l)
{
    eq(a.real(), b.real(), l + ".re");
    eq(a.imag(), b.imag(), l + ".im");
}
void Batch::flush()
{
    if (fs.empty()) return;
    vector<F> f2;
    vector<string> l2;
    f2.swap(fs);
    l2.swap(labels);
    if (mode == CONC) {
        for (size_t i = 0; i < f2.size(); i++) check(f2[i], l2[i]);
        return;
    }
    check_limits();
    if (pos < prefix.size()) return;
    // one query for the conjunction, without and with the path condition
    bool anyfalse = false;
    for (auto& f : f2) if (f.id == 1) anyfalse = true;
    if (f2.size() > 1 && !anyfalse) {
        F g = f_all(f2);
        auto it = goal_nopc.find(g.id);
        Res r = UNK;
        F neg = f_not(g);
        r = prove_lin(neg.id, false, false, curopts.lin_ms);
        if (r != UNSAT && (!pc.allowed.empty() || !pc.extra.empty())) r = prove_lin(neg.id, true, false, curopts.lin_ms);
        (void)it;
        if (r == UNSAT) {
            st.asserts += f2.size();
            st.proven += f2.size();
            return;
        }
    }
    for (size_t i = 0; i < f2.size(); i++) {
        int r = decide(f2[i], l2[i]);
        if (r == 1) return;  // one confirmed violation is enough for this batch
    }
}
void cut(const string& why)
{
    st.cuts++;
    inconcl.push_back("cut: " + why);
    leave(mode == CONC ? J_DISCARD : J_END);
}
void fail(const string& why)
{
    if (mode == CONC) {
        st.asserts++;
        conc_failures.push_back(why);
        leave(J_FAIL);
    }
    if (pos >= prefix.size()) decide(f_false(), why);
    leave(J_END);
}
ostream& operator<<(ostream& o, const SReal& x)
{
    if (x.id == NANV) return o << "nan";
    if (x.id == POISON) return o << "poison";
    if (x.id == TAINT) return o << "computed from poison";
    if (x.id == PINF) return o << "inf";
    if (x.id == NINF) return o << "-inf";
    if (mode == CONC) return o << cf(x.id).get_d();
    if (isconst(x.id)) return o << cq(x.id).get_str();
    return o << "t" << x.id;
}
istream& operator>>(istream& i, SReal& x)
{
    double d;
    i >> d;
    x = SReal(d);
    return i;
}
ostream& operator<<(ostream& o, const SComplex& x) { return o << "(" << x.real() << "," << x.imag() << ")"; }

}  // namespace sx

// index assertions of the library (LegacyMatrix::operator() etc.)
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept
{
    using namespace sx;
    if (!in_path) {
        fprintf(stderr, "assertion outside a case: %s %s:%u %s\n", expr, file, line, fn);
        _exit(3);
    }
    if (curopts.asserts_ok) leave(J_END);
    const char* base = strstr(file, "tlapack");
    string w = string("library assertion failed: ") + expr + " (" + (base ? base : file) + ")";
    fail(w);
}

namespace sx {
// ---------------------------------------------------------------------------
// Running
static std::function<void()> curfn;
struct Saved {
    Mode mode;
    vector<Node> N; vector<mpq_class> CQ; vector<VarInfo> V; map<string, nid> constmemo, inputs;
    unordered_map<uint64_t, nid> addmemo, mulmemo_;
    map<pair<nid, nid>, nid> divmemo, hypmemo;
    map<nid, nid> sqrtmemo, absmemo;
    map<array<nid, 4>, pair<nid, nid>> cdivmemo;
    map<pair<nid, nid>, pair<nid, nid>> csqrtmemo;
    vector<unique_ptr<Poly>> polycache;
    vector<char> polystate;
    vector<string> input_order;
    vector<FNode> FN;
    map<tuple<nid, nid, int>, uint32_t> relmemo;
};
static void swap_state(Saved& s)
{
    s.N.swap(N); s.CQ.swap(CQ); s.V.swap(V); s.constmemo.swap(constmemo); s.inputs.swap(inputs);
    s.addmemo.swap(addmemo); s.mulmemo_.swap(mulmemo_); s.divmemo.swap(divmemo); s.hypmemo.swap(hypmemo);
    s.sqrtmemo.swap(sqrtmemo); s.absmemo.swap(absmemo); s.cdivmemo.swap(cdivmemo); s.csqrtmemo.swap(csqrtmemo);
    s.polycache.swap(polycache); s.polystate.swap(polystate); s.input_order.swap(input_order); s.FN.swap(FN);
    s.relmemo.swap(relmemo);
}
// run the harness concretely; returns 0 ok, 1 failure, 2 discarded
static int run_concrete(map<string, mpf_class>* vals, bool random, string& why)
{
    static Saved sv;
    swap_state(sv);
    static MonoTab savedMT;
    swap(savedMT, MT);
    jmp_buf saved;
    memcpy(&saved, &path_jmp, sizeof saved);
    bool saved_in = in_path;
    Mode m0 = mode;
    auto savedst = st;
    auto sinc = inconcl;
    mode = CONC;
    table_reset();
    conc_values = vals;
    conc_random = random;
    conc_failures.clear();
    conc_used.clear();
    in_path = true;
    volatile int res = 0;
    int j = setjmp(path_jmp);
    if (j == 0) {
        try {
            curfn();
        }
        catch (std::exception& e) {
            conc_failures.push_back(string("unexpected exception: ") + e.what());
        }
    }
    else if (j == J_DISCARD) res = 2;
    long did = st.asserts - savedst.asserts;
    if (!conc_failures.empty()) { res = 1; why = conc_failures[0]; }
    else if (res == 0 && did == 0) res = 2;
    mode = m0;
    memcpy(&path_jmp, &saved, sizeof saved);
    in_path = saved_in;
    st = savedst;
    inconcl = sinc;
    N.clear(); CF.clear();
    swap(savedMT, MT);
    swap_state(sv);
    return res;
}
static bool replay_model(const map<string, mpf_class>& m, string& why)
{
    auto mm = m;
    int r = run_concrete(&mm, false, why);
    if (r == 2) why = "discarded";
    if (r == 0) why = "passes";
    return r == 1;
}

struct CaseRec {
    string name;
    CaseOpts o;
    function<void()> f;
};
static vector<CaseRec>& cases()
{
    static vector<CaseRec> c;
    return c;
}
void add_case(const string& name, const CaseOpts& o, function<void()> f) { cases().push_back({name, o, f}); }

static string jstr(const string& s)
{
    string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}
static void run_case(CaseRec& c, FILE* out)
{
    st = Stats();
    viols.clear();
    inconcl.clear();
    curopts = c.o, fine_cmp = c.o.param;
    curcase = c.name;
    curfn = c.f;
    rng.seed(g_seed * 1000003 + hash<string>()(c.name));
    mode = SYM;
    table_reset();
    polykeys.clear();
    keypoly.clear();
    goal_nopc.clear();
    prefix.clear();
    double t0 = now();
    case_deadline = t0 + c.o.case_s * (g_thorough ? 5 : 1);
    static int exhausted;
    exhausted = 0;
    static volatile int ended_paths;
    ended_paths = 0;
    while (true) {
        pc = PC();
        trace.clear();
        pos = 0;
        in_path = true;
        jmp_reason.clear();
        st.paths++;
        int j = setjmp(path_jmp);
        if (j == 0) {
            try {
                curfn();
                ended_paths = ended_paths + 1;
            }
            catch (std::exception& e) {
                if (pos >= prefix.size()) decide(f_false(), string("unexpected exception: ") + e.what());
                ended_paths = ended_paths + 1;
            }
        }
        else if (jmp_reason != "time" && j == J_END) ended_paths = ended_paths + 1;
        in_path = false;
        if (jmp_reason == "time") { inconcl.push_back("time budget of the case exhausted"); exhausted = 1; break; }
        // next path
        vector<Dec> p = trace;
        while (!p.empty() && !p.back().alt) p.pop_back();
        if (p.empty()) break;
        p.back() = {!p.back().val, false};
        prefix = p;
        if (st.paths >= c.o.max_paths * (g_thorough ? 5 : 1)) { inconcl.push_back("path budget exhausted"); exhausted = 1; break; }
        if (viols.size() >= 3) break;
    }
    if (ended_paths == 0 && viols.empty()) inconcl.push_back("vacuous: no path reached the end");
    // concrete traces against the implementation (same harness, numbers)
    int want = c.o.fuzz, tries = 0;
    bool conc_reached = false;
    while (st.conc_ok < want && tries < want * 6 && viols.empty()) {
        tries++;
        string why;
        int r = run_concrete(nullptr, true, why);
        if (r == 0) { st.conc_ok++; conc_reached = true; }
        else if (r == 2) st.conc_disc++;
        else {
            viols.push_back({why, why, strmodel(conc_used), true});
            break;
        }
    }
    // undecided obligations: more concrete attempts at falsification
    if (!inconcl.empty() && viols.empty()) {
        double dl = now() + min(8.0, c.o.case_s / 4);
        for (int k = 0; k < 300 && now() < dl; k++) {
            string why;
            if (run_concrete(nullptr, true, why) == 1) { viols.push_back({why, why, strmodel(conc_used), true}); break; }
        }
    }
    (void)conc_reached;
    ostringstream o;
    o << "{\"case\":" << jstr(c.name) << ",\"paths\":" << st.paths << ",\"forks\":" << st.forks << ",\"asserts\":" << st.asserts
      << ",\"proven\":" << st.proven << ",\"trivial\":" << st.trivial << ",\"inconclusive\":" << st.inconcl
      << ",\"queries\":" << st.queries << ",\"unsat\":" << st.unsat << ",\"sat\":" << st.sat << ",\"unknown\":" << st.unknown << ",\"icp\":" << st.icp
      << ",\"solver_s\":" << st.solver_s << ",\"wall_s\":" << now() - t0 << ",\"conc_ok\":" << st.conc_ok
      << ",\"conc_disc\":" << st.conc_disc << ",\"oblig\":" << st.oblig << ",\"exhausted\":" << exhausted << ",\"inputs\":" << input_order.size() << ",\"incl\":[";
    set<string> seen;
    bool first = true;
    for (auto& s : inconcl)
        if (seen.insert(s).second) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : viols) {
        o << (first ? "" : ",") << "{\"label\":" << jstr(v.label) << ",\"detail\":" << jstr(v.detail) << ",\"model\":{";
        first = false;
        bool f2 = true;
        for (auto& kv : v.model) { o << (f2 ? "" : ",") << jstr(kv.first) << ":" << jstr(kv.second); f2 = false; }
        o << "}}";
    }
    o << "]}\n";
    fputs(o.str().c_str(), out);
    fflush(out);
}

int sx_main(int argc, char** argv)
{
    int shard = 0, nsh = 1;
    string only, replay, rcase;
    FILE* out = stdout;
    bool list = false, havelist = false;
    set<string> wanted;
    string fuzzc;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--shard") { shard = atoi(argv[++i]); nsh = atoi(argv[++i]); }
        else if (a == "--only") only = argv[++i];
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--seed") g_seed = atoll(argv[++i]);
        else if (a == "--out") out = fopen(argv[++i], "w");
        else if (a == "--list") list = true;
        else if (a == "--cases") { ifstream f(argv[++i]); string l; while (getline(f, l)) wanted.insert(l); havelist = true; }
        else if (a == "--fuzzcase") fuzzc = argv[++i];
        else if (a == "--replay") { rcase = argv[++i]; replay = argv[++i]; }
    }
    mpf_set_default_prec(PREC);
    signal(SIGPIPE, SIG_IGN);
    register_all();
    if (list) {
        for (auto& c : cases()) printf("%s\n", c.name.c_str());
        return 0;
    }
    if (!fuzzc.empty()) {  // concrete runs only (does a crash or hang reproduce?)
        for (auto& c : cases())
            if (c.name == fuzzc) {
                curopts = c.o, fine_cmp = c.o.param;
                curfn = c.f;
                rng.seed(g_seed);
                table_reset();
                for (int k = 0; k < 40; k++) {
                    string why;
                    if (run_concrete(nullptr, true, why) == 1) { printf("FAILS %s\n", why.c_str()); return 1; }
                }
                return 0;
            }
        return 2;
    }
    if (!replay.empty()) {
        // lines "name value"; reruns the real code on these numbers
        map<string, mpf_class> m;
        ifstream f(replay);
        string n, v;
        while (f >> n >> v) {
            mpf_class x(0, PREC);
            if (v.find('/') != string::npos) x = mpf_class(mpq_class(v), PREC);
            else x.set_str(v, 10);
            m.insert_or_assign(n, x);
        }
        for (auto& c : cases())
            if (c.name == rcase) {
                curopts = c.o, fine_cmp = c.o.param;
                curfn = c.f;
                string why;
                int r = run_concrete(&m, false, why);
                printf("%s: %s %s\n", rcase.c_str(), r == 1 ? "FAILS" : r == 2 ? "discarded" : "passes", why.c_str());
                return r == 1 ? 1 : 0;
            }
        return 2;
    }
    int k = 0;
    for (auto& c : cases()) {
        if (!only.empty() && c.name.find(only) == string::npos) continue;
        if (havelist && !wanted.count(c.name)) continue;
        if (k++ % nsh != shard) continue;
        alarm((unsigned)(c.o.case_s * (g_thorough ? 5 : 1) + 60));
        fprintf(out, "{\"begin\":%s}\n", jstr(c.name).c_str());
        fflush(out);
        run_case(c, out);
    }
    ostringstream o;
    o << "{\"meta\":1,\"cases\":" << cases().size() << ",\"covers\":[";
    bool first = true;
    for (auto& s : covered) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"bounds\":[";
    first = true;
    for (auto& s : boundtxt) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"assumptions\":[";
    first = true;
    for (auto& s : assumptxt) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "]}\n";
    fputs(o.str().c_str(), out);
    fclose(out);
    z3.stop();
    return 0;
}
}  // namespace sx
int main(int argc, char** argv) { return sx::sx_main(argc, argv); }

// Independence of context (P24): every operation is evaluated in a fresh thread, after
// changing predecessors (operations in other formats, printing, parsing, reductions,
// failing calls) and while other threads run the same operation with other arguments.
// Every distinct result becomes an event, which the specification has to accept; "of" is
// the number of distinct results of the call, as one result may be as good as another.
// -DPART selects the operations.
#include "bool.hpp"
#if PART == 8
#include "settings.hpp"
#include "literals.hpp"
#endif
#include <thread>
#include <mutex>
#include <atomic>
VERIF_MAIN
typedef float f; typedef double d; typedef long double l;
using namespace p1788::reduction;
static Rng* R;

// ---- contexts: what may run before -----------------------------------------------------
template<typename T> void ctx_ops(Rng& r)
{
    typedef std::numeric_limits<T> L;
    Rep<T> x(L::denorm_min(), L::min()), y((T)0.3L, L::max()), z((T)-1.5, (T)2.25);
    switch (r.below(10))
    {
    case 0: Fl<T>::add(x, y); break;
    case 1: Fl<T>::mul(x, z); break;
    case 2: Fl<T>::exp(z); break;
    case 3: Fl<T>::sin(y); break;
    case 4: Fl<T>::sqrt(x); break;
    case 5: Fl<T>::mid(y); Fl<T>::rad(x); break;
    case 6: Fl<T>::cancel_minus(z, x); break;
    case 7: Fl<T>::sin_rev(z, z); break;
    case 8: Fl<T>::pown(z, -3); break;
    default: Fl<T>::div(strongest(z), strongest(x)); break;
    }
}
template<typename T> void ctx_text(Rng& r)
{
    Rep<T> x((T)0.1L, std::numeric_limits<T>::max());
    std::stringstream s;
    switch (r.below(6))
    {
    case 0: s << p1788::io::hex << obj(x); break;
    case 1: s << p1788::io::uncertain_form << p1788::io::scientific << obj(Rep<T>(1, (T)1.25)); break;
    case 2: s << p1788::io::precision(20) << obj(strongest(x)); break;
    case 3: { I<T> a("[0.1, 0x1.8p-140]"); break; }
    case 4: { I<T> a("[1/3, foo"); break; }
    default: { DI<T> a("3.56?2e-300_def"); break; }
    }
}
template<typename T> void ctx_red(Rng& r)
{
    typedef std::numeric_limits<T> L;
    T a[] = { L::max(), 1, L::denorm_min(), -L::max(), (T)0.1L };
    rnd_mode m[] = { rnd_mode::downward, rnd_mode::upward, rnd_mode::to_nearest, rnd_mode::to_zero };
    switch (r.below(3)) { case 0: sum(a, a + 5, m[r.below(4)]); break; case 1: sum_sqr(a, a + 5, m[r.below(4)]); break; default: dot(a, a + 4, a + 1, m[r.below(4)]); break; }
}
static void ctx_fail(Rng& r)
{
    ex::set_throw_exception_cwd((ex::exception_bits)15);
    try { switch (r.below(4)) { case 0: { I<f> x(2.0f, 1.0f); break; } case 1: { I<l> x("[3,2]"); break; } case 2: Fl<f>::add(Rep<f>(2, 1), Rep<f>(1, 2)); break; default: Fl<l>::exp(Rep<l>(2, 1)); break; } }
    catch (ex::exception&) {}
    ex::set_throw_exception_cwd(ex::none_bit);
    ex::clear();
}
static void ctx_mixed(Rng& r)
{
    Rep<f> a(0.1f, 3e38f); Rep<d> b(1e-300, 1e300); Rep<l> c(1e-4000L, 1e4000L);
    switch (r.below(6))
    {
    case 0: Fl<f>::mul(b, c); break; case 1: Fl<d>::add(a, c); break; case 2: Fl<l>::div(a, b); break;
    case 3: Fl<f>::convert_type(c); break; case 4: Fl<d>::mid(c); break; default: Fl<f>::cancel_plus(c, a); break;
    }
}
static void context(Rng& r)
{
    for (int k = r.below(3) + 1; k > 0; --k)
        switch (r.below(12))
        {
        case 0: case 1: ctx_ops<f>(r); break;
        case 2: case 3: ctx_ops<d>(r); break;
        case 4: case 5: ctx_ops<l>(r); break;
        case 6: r.chance(50) ? ctx_text<f>(r) : r.chance(50) ? ctx_text<d>(r) : ctx_text<l>(r); break;
        case 7: r.chance(50) ? ctx_red<f>(r) : r.chance(50) ? ctx_red<d>(r) : ctx_red<l>(r); break;
        case 8: ctx_fail(r); break;
        default: ctx_mixed(r); break;
        }
}

// ---- locales: compiled into a scratch directory that is removed at once ------------------------
#if PART >= 7
#include <clocale>
#include <fstream>
#include <locale>
#include <unistd.h>
static std::locale turkish = std::locale::classic();     // i is not the lower case of I
static bool comma = false, turk = false;                 // which of the two could be made
struct Punct : std::numpunct<char> { char do_thousands_sep() const { return '.'; } char do_decimal_point() const { return ','; } std::string do_grouping() const { return "\3"; } };
static void make_locales()
{
    char dir[] = "/tmp/verif_loc_XXXXXX";
    if (!mkdtemp(dir)) return;
    std::string D = dir;
    { std::ofstream o((D + "/src").c_str()); o << "LC_NUMERIC\ndecimal_point \"<U002C>\"\nthousands_sep \"<U002E>\"\ngrouping 3;3\nEND LC_NUMERIC\n"; }
    std::system(("cd " + D + " && localedef -c -i src ./xx >/dev/null 2>&1; localedef -c -i tr_TR -f ISO-8859-9 ./tr >/dev/null 2>&1").c_str());
    setenv("LOCPATH", dir, 1);
    comma = std::setlocale(LC_ALL, "xx") && std::string(std::localeconv()->decimal_point) == ",";
    std::setlocale(LC_ALL, "C");
    try { turkish = std::locale("tr"); turk = true; } catch (std::runtime_error&) {}
    if (getenv("VERIF_VERBOSE")) fprintf(stderr, "locales: comma %d turkish %d\n", comma, turk);
}
static void drop_locales()
{
    char const* d = getenv("LOCPATH");
    if (d && !strncmp(d, "/tmp/verif_loc_", 15)) std::system((std::string("rm -r '") + d + "'").c_str());
}
#endif

// ---- a batch of calls of one operation ---------------------------------------------------
struct Case { std::string head, tail; std::function<std::string()> fn; std::vector<std::string> res; };
struct Batch
{
    std::vector<Case> v;
    std::mutex m;
    void add(char const* op, int k, char F, std::string const& A, std::string const& x, int n, std::function<std::string()> fn)
    {
        Case c;
        c.head = std::string("{\"op\":\"") + op + "\",\"k\":" + std::to_string(k) + ",\"F\":\"" + F + "\",\"A\":\"" + A + "\",\"x\":[" + x + "],\"n\":" + std::to_string(n) + ",";
        c.fn = fn; v.push_back(c);
    }
    static std::string eval(Case const& c)
    {
        std::string res; ex::clear();
        try { res = "\"r\":" + c.fn() + ",\"ex\":0"; } catch (...) { res = "\"r\":[],\"ex\":64"; }
        return res + ",\"fl\":" + std::to_string((int)ex::state());
    }
    void note(Case& c, std::string const& s) { if (std::find(c.res.begin(), c.res.end(), s) == c.res.end()) c.res.push_back(s); }
    void run(Rng& r)
    {
        if (v.empty()) return;
        std::thread fresh([&] { for (auto& c : v) note(c, eval(c)); }); fresh.join();
        for (int k = 0; k < (g_cfg.thorough ? 20 : 6); ++k) for (auto& c : v) { context(r); note(c, eval(c)); }
#if PART >= 7
        if (comma) { std::setlocale(LC_ALL, "xx"); for (auto& c : v) note(c, eval(c)); std::setlocale(LC_ALL, "C"); }
        for (int k = 0; k < 2; ++k) { std::locale::global(k ? std::locale(std::locale::classic(), new Punct) : turkish); for (auto& c : v) note(c, eval(c)); std::setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); }
#endif
        std::vector<std::thread> th;
        int const T = 4;
        std::vector<uint64_t> seed; for (int t = 0; t < T; ++t) seed.push_back(r.next());
        std::atomic<int> ready(0);
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
            Rng q(seed[t]); ++ready; while (ready < T) std::this_thread::yield();
            for (int k = (g_cfg.thorough ? 12 : 4) * (int)v.size(); k > 0; --k)
            {
                Case& c = v[q.below((int)v.size())];
                if (q.chance(5)) context(q);
                std::string s = eval(c);
                std::lock_guard<std::mutex> g(m); note(c, s);
            }
        });
        for (auto& t : th) t.join();
        for (auto& c : v) for (auto& s : c.res) { fprintf(g_out, "%s%s,\"rt\":\"x\",\"of\":%d}\n", c.head.c_str(), s.c_str(), (int)c.res.size()); ++g_events; }
        v.clear();
    }
};
static Batch G;

// ---- arguments near the limits of every format ---------------------------------------------
template<typename T> T edge(Rng& r, int lim)
{
    typedef std::numeric_limits<float> FL; typedef std::numeric_limits<double> DL; typedef std::numeric_limits<T> L;
    if (lim) return finite_num<T>(r, lim);
    if (r.chance(45)) return finite_num<T>(r);
    long double a[] = { FL::max(), FL::min(), FL::denorm_min(), DL::max(), DL::min(), DL::denorm_min(), L::max(), L::min(), L::denorm_min() };
    long double v = a[r.below(9)] * (r.chance(50) ? 1.0L : r.chance(50) ? 0.75L : 3.0L);
    if (r.chance(50)) v = -v;
    T t = (T)v; return std::isfinite(t) ? t : L::max();
}
template<typename T> Rep<T> eiv(Rng& r, int lim)
{
    if (r.chance(10)) return rnd_iv<T>(r, lim);
    T a = edge<T>(r, lim);
    if (r.chance(8)) return Rep<T>(a, INF<T>());
    if (r.chance(8)) return Rep<T>(-INF<T>(), a);
    if (r.chance(25)) return Rep<T>(a, a);
    return mk(a, r.chance(30) ? nxt(a, 1) : edge<T>(r, lim));
}
template<typename X> struct Arg;
template<typename T> struct Arg<Rep<T>> { static Rep<T> get(Rng& r, int lim) { Rep<T> x = eiv<T>(r, lim); if (x.first == INF<T>() || x.second == -INF<T>()) x = Rep<T>(1, 2); if (!std::isnan(x.first) && std::isinf(x.second) && x.first == INF<T>()) x = Rep<T>(1, 1); return x; } };
template<typename T> struct Arg<DRep<T>> { static DRep<T> get(Rng& r, int lim) { Rep<T> x = Arg<Rep<T>>::get(r, lim); return r.chance(3) ? DRep<T>(empty_rep<T>(), Dec::ill) : DRep<T>(x, rnd_dec(r, x)); } };
static int N = 12;
// two functions: through the flavor and through the class
template<typename Op, typename T, typename X> void u(int lim)
{
    typedef typename ObjT<T, Kind<X>::k>::type C;
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, lim); bool cls = R->chance(30);
        G.add(Op::spec(), Kind<X>::k, Tags<T>::c, fm<X>(), enc(x), 0, [=] { return cls ? enc(Op::template cls<C>(obj(x))) : enc(Op::template flavor<T>(x)); });
    }
    G.run(*R);
}
// points beyond the range of float, on the side of infinity or of zero
template<typename Op, typename T> void far(bool near = false)
{
    for (int i = N; i > 0; --i)
    {
        T v = std::ldexp(finite_num<T>(*R, 1), near ? -R->range(100, 700) : R->range(130, 700)); if (!std::isfinite(v)) v = std::numeric_limits<T>::max();
        Rep<T> x(v, v); DRep<T> y = strongest(x);
        if (R->chance(35)) G.add(Op::spec(), 1, Tags<T>::c, fm<DRep<T>>(), enc(y), 0, [=] { return enc(Op::template flavor<T>(y)); });
        else G.add(Op::spec(), 0, Tags<T>::c, fm<Rep<T>>(), enc(x), 0, [=] { return enc(Op::template flavor<T>(x)); });
    }
    G.run(*R);
}
// powers that leave the range of float or enter its subnormal numbers
template<typename T> void farpow()
{
    T const ys[] = { 2, (T)0.5, -1, (T)1.5, (T)-2.5, 3, (T)-0.25, 1, -2 };
    int const E = std::numeric_limits<T>::max_exponent;
    for (int i = N; i > 0; --i)
    {
        T v = std::ldexp(std::fabs(finite_num<T>(*R, 1)) + (T)0.5, (R->chance(50) ? 1 : -1) * (R->chance(50) ? R->range(E / 3, E - 4) : R->range(40, std::min(E - 4, 700))));
        if (!std::isfinite(v)) v = std::numeric_limits<T>::max();
        T a = ys[R->below(9)], c = ys[R->below(9)];
        Rep<T> x = R->chance(60) ? Rep<T>(v, v) : R->chance(50) ? mk(v, (T)1) : mk(v, (T)0), y = R->chance(60) ? Rep<T>(a, a) : mk(a, c);
        G.add("pow", 0, Tags<T>::c, fml<Rep<T>, Rep<T>>(), encl(x, y), 0, [=] { return enc(Fl<T>::pow(x, y)); });
    }
    G.run(*R);
}
// reverse functions of values outside the range of float, solved for near zero
template<typename Op, typename T> void farrev()
{
    for (int i = N / 2; i > 0; --i)
    {
        T v = std::ldexp(finite_num<T>(*R, 1), -R->range(90, 700)), w = std::ldexp(finite_num<T>(*R, 1), -R->range(90, 700));
        Rep<T> c = R->chance(60) ? Rep<T>(v, v) : mk(v, w), x = R->chance(50) ? Rep<T>(-1, 1) : R->chance(50) ? Rep<T>(-4, 4) : mk((T)(4 * v), (T)-w);
        G.add(Op::spec(), 0, Tags<T>::c, fml<Rep<T>, Rep<T>>(), encl(c, x), 0, [=] { return enc(Op::template flavor<T>(c, x)); });
    }
    G.run(*R);
}
template<typename Op, typename T, typename X, typename Y> void b(int lim)
{
    typedef typename ObjT<T, Kind<X>::k>::type C;
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, lim); Y y = Arg<Y>::get(*R, lim); bool cls = R->chance(30);
        G.add(Op::spec(), Kind<X>::k, Tags<T>::c, fml<X, Y>(), encl(x, y), 0, [=] { return cls ? enc(Op::template cls<C>(obj(x), obj(y))) : enc(Op::template flavor<T>(x, y)); });
    }
    G.run(*R);
}
template<typename Op, typename T, typename X, typename Y, typename Z> void t3(int lim)
{
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, lim); Y y = Arg<Y>::get(*R, lim); Z z = Arg<Z>::get(*R, lim);
        G.add(Op::spec(), Kind<X>::k, Tags<T>::c, fml<X, Y, Z>(), encl(x, y, z), 0, [=] { return enc(Op::template flavor<T>(x, y, z)); });
    }
    G.run(*R);
}
struct V_fma { static char const* spec() { return "fma"; } template<typename U, typename... X> static auto flavor(X const&... x) -> decltype(Fl<U>::fma(x...)) { return Fl<U>::fma(x...); } };
template<typename Op, typename T, typename X> void num()
{
    for (int i = 2 * N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, 0);
        G.add(Op::spec(), Kind<X>::k, Tags<T>::c, fm<X>(), enc(x), 0, [=] { return encq(Op::template flavor<T>(x)); });
    }
    G.run(*R);
}
template<typename Op, typename X, typename Y> void relb()
{
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, 0); Y y = Arg<Y>::get(*R, 0);
        G.add(Op::spec(), Kind<X>::k, Tags<NumT<X>>::c, fml<X, Y>(), encl(x, y), 0, [=] { return enc((bool)Op::template flavor<NumT<X>>(x, y)); });
    }
    G.run(*R);
}
// every format of the result with equal and with other formats of the arguments
#define UN_ALL(OP, LIM) { u<OP, f, Rep<f>>(LIM); u<OP, d, Rep<d>>(LIM); u<OP, l, Rep<l>>(LIM); u<OP, d, DRep<d>>(LIM); u<OP, f, DRep<f>>(LIM); u<OP, l, DRep<l>>(LIM); \
    u<OP, f, Rep<d>>(LIM); u<OP, d, Rep<f>>(LIM); u<OP, d, Rep<l>>(LIM); u<OP, f, DRep<l>>(LIM); }
#define BI_ALL(OP, LIM) { b<OP, f, Rep<f>, Rep<f>>(LIM); b<OP, d, Rep<d>, Rep<d>>(LIM); b<OP, l, Rep<l>, Rep<l>>(LIM); b<OP, d, DRep<d>, DRep<d>>(LIM); b<OP, f, DRep<f>, DRep<f>>(LIM); \
    b<OP, f, Rep<d>, Rep<d>>(LIM); b<OP, d, Rep<f>, Rep<f>>(LIM); b<OP, d, Rep<l>, Rep<f>>(LIM); b<OP, f, DRep<d>, DRep<l>>(LIM); b<OP, l, DRep<d>, DRep<f>>(LIM); }
#define NUM_ALL(OP) { num<OP, f, Rep<f>>(); num<OP, d, Rep<d>>(); num<OP, l, Rep<l>>(); num<OP, d, DRep<d>>(); num<OP, f, Rep<d>>(); num<OP, d, Rep<f>>(); num<OP, d, Rep<l>>(); num<OP, f, DRep<l>>(); num<OP, l, DRep<f>>(); }
#define REL_ALL(OP) { relb<OP, Rep<f>, Rep<f>>(); relb<OP, Rep<d>, Rep<d>>(); relb<OP, Rep<l>, Rep<l>>(); relb<OP, Rep<d>, Rep<f>>(); relb<OP, Rep<f>, Rep<l>>(); relb<OP, DRep<d>, DRep<d>>(); relb<OP, DRep<f>, DRep<d>>(); }
template<typename T, typename X> void pown_p(bool rev)
{
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, 0); int n = R->chance(35) ? (R->chance(50) ? -2 : -4) : R->range(-7, 9);
        if (rev) { X y = Arg<X>::get(*R, 0); G.add("pown_rev", Kind<X>::k, Tags<T>::c, fml<X, X>(), encl(x, y), n, [=] { return enc(Fl<T>::pown_rev(x, y, n)); }); }
        else G.add("pown", Kind<X>::k, Tags<T>::c, fm<X>(), enc(x), n, [=] { return enc(Fl<T>::pown(x, n)); });
    }
    G.run(*R);
}
template<typename T, typename X, typename Y> void pairp()
{
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, 0); Y y = Arg<Y>::get(*R, 0);
        G.add("mul_rev_to_pair", Kind<X>::k, Tags<T>::c, fml<X, Y>(), encl(x, y), 0, [=] { return enc2(Fl<T>::mul_rev_to_pair(x, y)); });
    }
    G.run(*R);
}
template<typename T, typename X> void convp()
{
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, 0);
        G.add("convert", Kind<X>::k, Tags<T>::c, fm<X>(), enc(x), 0, [=] { return enc(Fl<T>::convert_type(x)); });
    }
    G.run(*R);
}
template<typename T> void redp()
{
    static rnd_mode const M[] = { rnd_mode::downward, rnd_mode::upward, rnd_mode::to_nearest, rnd_mode::to_zero };
    char const* names[] = { "sum", "sum_abs", "sum_sqr", "dot" };
    for (int which = 0; which < 4; ++which)
    {
        for (int i = N; i > 0; --i)
        {
            std::vector<T> v, w; std::string x, y; int m = R->below(4);
            for (int k = R->range(0, 6); k > 0; --k) { v.push_back(edge<T>(*R, 0)); w.push_back(edge<T>(*R, 0)); if (x.size()) { x += ","; y += ","; } x += enc(v.back()); y += enc(w.back()); }
            G.add(names[which], 0, Tags<T>::c, which == 3 ? fm<Rep<T>>() + fm<Rep<T>>() : fm<Rep<T>>(), which == 3 ? "[" + x + "],[" + y + "]" : "[" + x + "]", m + 1,
                  [=] { return enc(which == 0 ? sum(v.begin(), v.end(), M[m]) : which == 1 ? sum_abs(v.begin(), v.end(), M[m]) : which == 2 ? sum_sqr(v.begin(), v.end(), M[m]) : dot(v.begin(), v.end(), w.begin(), M[m])); });
        }
        G.run(*R);
    }
}
template<typename T, typename A, typename Bt> void numsp()
{
    for (int i = N; i > 0; --i)
    {
        A a = edge<A>(*R, 0); Bt c = edge<Bt>(*R, 0);
        std::string fs = std::string(1, Tags<A>::c) + Tags<Bt>::c;
        G.add("nums", 0, Tags<T>::c, fs, enc(a) + "," + enc(c), 0, [=] { return enc(Fl<T>::nums_to_interval(a, c)); });
        G.add("nums", 1, Tags<T>::c, fs, enc(a) + "," + enc(c), 0, [=] { return enc(DI<T>(a, c)); });
    }
    G.run(*R);
}
#if PART == 8
// reading and writing
template<typename T> void textp(Lits& g, int k)
{
    for (int i = 2 * N; i > 0; --i)
    {
        std::string t = i % 8 ? g.literal() : g.text(); std::string x = ",\"txt\":" + encs(t);
        if (k) G.add("text", 1, Tags<T>::c, "", "", 0, [=] { return enc(Fl<T>::text_to_decorated_interval(t)) + x; });
        else G.add("text", 0, Tags<T>::c, "", "", 0, [=] { return enc(Fl<T>::text_to_interval(t)) + x; });
    }
    G.run(*R);
}
// an unbounded interval whose bound is outside the range of float
template<typename T> Rep<T> farray(Rng& r)
{
    T v = std::ldexp(finite_num<T>(r, 1), std::numeric_limits<T>::max_exponent > 128 ? (r.chance(50) ? 1 : -1) * r.range(130, 900) : r.range(-120, 120));
    return r.chance(50) ? Rep<T>(v, INF<T>()) : Rep<T>(-INF<T>(), v);
}
template<typename T> void setray(Rep<T>& x, Rng& r) { x = farray<T>(r); }
template<typename T> void setray(DRep<T>& x, Rng& r) { x = strongest(farray<T>(r)); }
template<typename X> void printp(int form, int num)
{
    for (int i = N; i > 0; --i)
    {
        X x = Arg<X>::get(*R, i % 3 ? 20 : 0); if (i % 4 == 1) setray(x, *R);
        Sett s = rnd_sett(*R); s.v[0] = form; s.v[1] = num;
        uint64_t seed = R->next();
        G.add("print", Kind<X>::k, Tags<NumT<X>>::c, "", enc(x), 0, [=] {
            Rng q(seed); std::ostringstream os; set_all(os, s, q);
            auto o = obj(x); os << o;
            std::string txt = os.str(); std::istringstream is(txt);
            auto y = decltype(o)(); is >> y;
            bool ok = !is.fail(); if (ok) { is >> std::ws; ok = is.eof(); }
            ex::clear();
            return "[" + enc(ok) + "," + enc(y) + "],\"st\":" + s.json() + ",\"txt\":" + encs(txt); });
    }
    G.run(*R);
}
#endif
void run_property(Rng& r)
{
    R = &r; if (g_cfg.thorough) N = 60;
#if PART >= 7
    make_locales();
    // the first text of the process is read under a foreign locale
    std::locale::global(turkish);
    { I<f> a("[1,2]"), a2("1?"); I<d> b("[1,2]"), b2("1?"); I<l> c("[1,2]"), c2("1?"); }
    std::setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic());
#endif
    for (int rep = g_cfg.thorough ? 20 : 1; rep > 0; --rep)
    {
#if PART == 0
    BI_ALL(B_add, 0) BI_ALL(B_sub, 0) BI_ALL(B_mul, 0) BI_ALL(B_div, 0) BI_ALL(B_atan2, 0)
#elif PART == 1
    farpow<f>(); farpow<d>(); farpow<l>();
    BI_ALL(B_pow, 9) BI_ALL(B_min, 0) BI_ALL(B_max, 0) BI_ALL(B_intersection, 0) BI_ALL(B_convex_hull, 0) BI_ALL(B_cancel_plus, 0) BI_ALL(B_cancel_minus, 0)
#elif PART == 2
    UN_ALL(U_pos, 0) UN_ALL(U_neg, 0) UN_ALL(U_recip, 0) UN_ALL(U_sqr, 0) UN_ALL(U_sqrt, 0) UN_ALL(U_sin, 20) UN_ALL(U_cos, 20) UN_ALL(U_tan, 20)
    far<U_sin, d>(); far<U_sin, l>(); far<U_cos, d>(); far<U_cos, l>(); far<U_tan, d>(); far<U_tan, l>();
#elif PART == 3
    UN_ALL(U_exp, 12) UN_ALL(U_exp2, 13) UN_ALL(U_exp10, 11) UN_ALL(U_log, 0) UN_ALL(U_log2, 0) UN_ALL(U_log10, 0) UN_ALL(U_sinh, 12) UN_ALL(U_cosh, 12)
#elif PART == 4
    far<U_tanh, d>(true); far<U_tanh, l>(true); far<U_sinh, d>(true); far<U_sin, d>(true); far<U_tan, d>(true); far<U_tan, l>(true);
    UN_ALL(U_tanh, 12) UN_ALL(U_asinh, 0) UN_ALL(U_acosh, 0) UN_ALL(U_atanh, 0) UN_ALL(U_asin, 0) UN_ALL(U_acos, 0) UN_ALL(U_atan, 0)
    u<U_asin, d, Rep<d>>(12); u<U_atanh, f, Rep<f>>(12); u<U_atanh, f, Rep<d>>(12);
#elif PART == 5
    UN_ALL(U_sign, 0) UN_ALL(U_ceil, 0) UN_ALL(U_floor, 0) UN_ALL(U_trunc, 0) UN_ALL(U_round_ties_to_even, 0) UN_ALL(U_round_ties_to_away, 0) UN_ALL(U_abs, 0)
    pown_p<f, Rep<f>>(false); pown_p<d, Rep<d>>(false); pown_p<l, Rep<l>>(false); pown_p<d, DRep<d>>(false); pown_p<f, Rep<d>>(false); pown_p<d, Rep<f>>(false); pown_p<f, DRep<l>>(false); pown_p<l, DRep<f>>(false);
    t3<V_fma, f, Rep<f>, Rep<f>, Rep<f>>(0); t3<V_fma, d, Rep<d>, Rep<d>, Rep<d>>(0); t3<V_fma, l, Rep<l>, Rep<l>, Rep<l>>(0); t3<V_fma, d, DRep<d>, DRep<d>, DRep<d>>(0); t3<V_fma, f, DRep<f>, DRep<f>, DRep<f>>(0);
    t3<V_fma, f, Rep<d>, Rep<d>, Rep<d>>(0); t3<V_fma, d, Rep<f>, Rep<l>, Rep<f>>(0); t3<V_fma, f, DRep<l>, DRep<d>, DRep<f>>(0);
#elif PART == 6
    farrev<R_sin_rev, d>(); farrev<R_sin_rev, l>(); farrev<R_tan_rev, d>(); farrev<R_tan_rev, l>(); farrev<R_cos_rev, d>();
    for (int k = 0; k < 2; ++k)
    {
        for (int i = N; i > 0; --i)
        {
            d v = std::ldexp(finite_num<d>(*R, 1), R->range(130, 900)); v = std::fabs(v) + 2;
            Rep<d> c = k ? Rep<d>(-1, v) : Rep<d>(v, v), x(-1e4, R->chance(50) ? 1e4 : -3);
            G.add("cosh_rev", 0, 'd', "dd", encl(c, x), 0, [=] { return enc(Fl<d>::cosh_rev(c, x)); });
        }
        G.run(*R);
    }
    BI_ALL(R_sqr_rev, 0) BI_ALL(R_abs_rev, 0) BI_ALL(R_cosh_rev, 0) BI_ALL(R_sin_rev, 8) BI_ALL(R_cos_rev, 8) BI_ALL(R_tan_rev, 8) BI_ALL(R_mul_rev, 0)
    t3<R_mul_rev, f, Rep<f>, Rep<f>, Rep<f>>(0); t3<R_mul_rev, d, Rep<d>, Rep<d>, Rep<d>>(0); t3<R_mul_rev, l, Rep<l>, Rep<l>, Rep<l>>(0); t3<R_mul_rev, f, Rep<d>, Rep<d>, Rep<l>>(0); t3<R_mul_rev, d, DRep<f>, DRep<f>, DRep<d>>(0);
    pown_p<f, Rep<f>>(true); pown_p<d, Rep<d>>(true); pown_p<l, Rep<l>>(true); pown_p<d, DRep<d>>(true); pown_p<f, Rep<d>>(true); pown_p<d, Rep<f>>(true); pown_p<f, DRep<l>>(true);
    pairp<f, Rep<f>, Rep<f>>(); pairp<d, Rep<d>, Rep<d>>(); pairp<l, Rep<l>, Rep<l>>(); pairp<f, Rep<d>, Rep<d>>(); pairp<d, DRep<f>, DRep<f>>(); pairp<f, DRep<l>, DRep<d>>(); pairp<d, DRep<d>, DRep<d>>();
#elif PART == 8
    Lits g(r);
    for (int k = 0; k < 2; ++k) { textp<f>(g, k); textp<d>(g, k); textp<l>(g, k); }
    for (int fo = 0; fo < 4; ++fo) for (int nu = 0; nu < 4; ++nu)
    { printp<Rep<f>>(fo, nu); printp<Rep<d>>(fo, nu); printp<Rep<l>>(fo, nu); printp<DRep<d>>(fo, nu); printp<DRep<f>>(fo, nu); if (fo && nu) break; }
#else
    NUM_ALL(Q_inf) NUM_ALL(Q_sup) NUM_ALL(Q_mid) NUM_ALL(Q_rad) NUM_ALL(Q_wid) NUM_ALL(Q_mag) NUM_ALL(Q_mig) NUM_ALL(Q_mid_rad)
    REL_ALL(L_equal) REL_ALL(L_subset) REL_ALL(L_less) REL_ALL(L_precedes) REL_ALL(L_interior) REL_ALL(L_strictly_less) REL_ALL(L_strictly_precedes) REL_ALL(L_disjoint)
    redp<f>(); redp<d>(); redp<l>();
    convp<f, Rep<d>>(); convp<f, Rep<l>>(); convp<d, Rep<l>>(); convp<d, Rep<f>>(); convp<f, DRep<d>>(); convp<f, DRep<l>>(); convp<d, DRep<l>>(); convp<l, DRep<d>>();
    numsp<f, f, f>(); numsp<f, d, d>(); numsp<d, d, d>(); numsp<d, f, f>(); numsp<d, l, l>(); numsp<f, l, d>(); numsp<l, f, d>(); numsp<l, l, l>();
#endif
    }
#if PART >= 7
    drop_locales();
#endif
}

// Powers, exponentials and logarithms, trigonometric, hyperbolic, and step functions:
// compiled once per property with -DP02 .. -DP06.
#include "ops.hpp"
VERIF_MAIN
template<typename T> void feed(Rep<T> const& x, Rng& r);       // one box
#define BOTH(OP, x) do { un<OP>(x); if (r.chance(25)) un<OP>(DRep<T>(x, rnd_dec(r, x))); } while (0)

// intervals with chosen end points around special values
template<typename T> std::vector<Rep<T>> edge_boxes(std::vector<T> const& v)
{
    std::vector<Rep<T>> g;
    g.push_back(empty_rep<T>());
    std::vector<T> w; w.push_back(-INF<T>());
    for (T a : v) { w.push_back(nxt(a, -1)); w.push_back(a); w.push_back(nxt(a, 1)); }
    w.push_back(INF<T>());
    std::sort(w.begin(), w.end());
    for (size_t i = 0; i < w.size(); ++i) for (size_t j = i; j < w.size(); ++j)
        if (w[i] != INF<T>() && w[j] != -INF<T>()) g.push_back(Rep<T>(w[i], w[j]));
    return g;
}

// one number of random digits in every binade around 1, on both sides of `centre'
template<typename T, typename Fn> void every_binade(Rng& r, T centre, Fn&& fn)
{
    int const d = std::numeric_limits<T>::digits;
    long n = 0;
    for (int k = -d - 4; k <= (centre == 0 ? d + 4 : 1); ++k) for (int sg = -1; sg <= 1; sg += 2)
    {
        T m = std::ldexp((T)1 + (T)r.below(1 << 20) / (T)(1 << 20), k), x = centre + sg * (r.chance(30) ? std::ldexp((T)1, k) : m);
        if (mine(n++)) fn(r.chance(70) ? Rep<T>(x, x) : mk(x, nxt(x, r.range(1, 5))));
    }
}

#ifdef P02
template<typename T> struct PowX { static T lim() { return (T)(std::numeric_limits<T>::max_exponent); } };
static int const EXPS[] = { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, 7, -7, 8, -8, 10, 11, -10, -11, 17, 31, -31, 64, -64, 100, -101, 127, 128, 149, -149, 150, -150, 1000, 1023, 1024, -1023, -1074, -1075, 16383, 16384, -16445, 1000001, -1000000, INT_MAX, INT_MAX - 1, -INT_MAX, -INT_MAX + 1, INT_MIN };
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    auto g = edge_boxes<T>(std::vector<T>{ -2, -1, 0, (T)0.5, 1, 3 });
    long n = 0;
    for (auto& x : g) for (int e : EXPS) if (mine(n++) && (g_cfg.thorough || r.chance(12))) { do_pown(x, e); if (r.chance(15)) do_pown(DRep<T>(x, rnd_dec(r, x)), e); }
    auto h = edge_boxes<T>(std::vector<T>{ -1, 0, (T)0.5, 1, 2 });
    n = 0;
    for (auto& x : h) for (auto& y : h) if (mine(n++) && r.chance(g_cfg.thorough ? 50 : 3)) { bi<B_pow>(x, y); if (r.chance(15)) bi<B_pow>(DRep<T>(x, rnd_dec(r, x)), DRep<T>(y, rnd_dec(r, y))); }
    for (int i = count(1000, 20000); i > 0; --i)
    {
        auto x = rnd_iv<T>(r);
        int e = r.chance(60) ? EXPS[r.below(sizeof EXPS / sizeof *EXPS)] : r.chance(60) ? r.range(-40, 40) : r.chance(50) ? (r.chance(50) ? 1 : -1) * dict_int(r, 20000000) : r.range(-40000, 40000);
        do_pown(x, e);
        if (r.chance(20)) do_pown(DRep<T>(x, rnd_dec(r, x)), e);
        // around the limits of the range: a^e next to max / min
        int p = r.range(2, 60);
        T a = (T)std::pow(2.0L, (long double)L::max_exponent / p), b = (T)std::pow(2.0L, (long double)(L::min_exponent - L::digits) / p);
        a = nxt(a, r.range(-2, 2)); b = nxt(b, r.range(-2, 2));
        do_pown(r.chance(50) ? mk(a, b) : mk((T)-a, r.chance(50) ? b : -b), r.chance(70) ? p : -p);
        // general power
        x = rnd_iv<T>(r, r.chance(50) ? 12 : 0); auto y = rnd_iv<T>(r, r.chance(80) ? 10 : 0);
        if (r.chance(70)) x = mk(std::fabs(x.first), std::fabs(x.second));
        if (std::isnan(x.first) || x.first == INF<T>()) x = rnd_iv<T>(r, 4);
        bi<B_pow>(x, y);
        if (r.chance(20)) bi<B_pow>(DRep<T>(x, rnd_dec(r, x)), DRep<T>(y, rnd_dec(r, y)));
        // exact and nearly exact powers
        T base = (T)r.range(1, 40), q = (T)r.range(-30, 30) / (T)(1 << r.below(4));
        T s = base * base; if (r.chance(50)) s *= s;
        if (r.chance(50)) s = std::ldexp(s, 4 * r.range(-5, 5));
        bi<B_pow>(Rep<T>(s, s), Rep<T>(q, q));
        bi<B_pow>(mk(s, nxt((T)1, r.range(-2, 2))), mk(q, finite_num<T>(r, 4)));
        // large exponents, also beyond the range of integer types, and bases next to 1
        static int const WORD[] = { 7, 8, 15, 16, 24, 30, 31, 32, 33, 52, 53, 62, 63, 64, 70 };
        int j = r.chance(50) ? WORD[r.below(15)] : r.range(4, 90);
        T ye = (T)std::ldexp((long double)1, j);
        if (r.chance(60)) ye = r.chance(50) ? nxt(ye, r.range(-3, 3)) : ye + r.range(-3, 3);
        if (r.chance(30)) ye = ye * (T)r.range(1, 31) / 16;
        if (r.chance(40)) ye = -ye;
        int u = r.chance(70) ? j + r.range(-12, 3) : r.range(1, L::digits);
        T xb = 1 + (T)std::ldexp((T)r.range(1, 15), -std::max(3, std::min(u, L::digits - 1)));
        if (r.chance(40)) xb = 1 / xb;
        if (r.chance(10)) xb = nxt((T)1, r.range(-3, 3));
        if (r.chance(10)) xb = (T)r.range(1, 9) / 4;
        Rep<T> ee = r.chance(75) ? Rep<T>(ye, ye) : mk(ye, r.chance(50) ? nxt(ye, r.range(-3, 3)) : finite_num<T>(r));
        bi<B_pow>(r.chance(70) ? Rep<T>(xb, xb) : mk(xb, finite_num<T>(r, 8)), ee);
    }
}
#endif
#ifdef P03
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    T mx = (T)L::max_exponent, mn = (T)(L::min_exponent - L::digits), ln2 = (T)0.693147180559945309417232121458176568L, lg2 = (T)0.301029995663981195213738894724493027L;
    auto one = [&](Rep<T> const& x) { BOTH(U_exp, x); BOTH(U_exp2, x); BOTH(U_exp10, x); BOTH(U_log, x); BOTH(U_log2, x); BOTH(U_log10, x); };
    every_binade<T>(r, 0, one); every_binade<T>(r, 1, one);
    std::vector<T> v{ -1, 0, (T)0.5, 1, 2, 10, 100, (T)1024, L::min(), L::denorm_min(), L::max() / 2 };
    for (T s : { (T)1, ln2, lg2 }) { v.push_back(mx * s); v.push_back(mn * s); v.push_back((T)L::min_exponent * s); }
    auto g = edge_boxes<T>(v);
    long n = 0;
    for (auto& x : g) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 16)) one(x);
    for (int i = count(900, 30000); i > 0; --i)
    {
        auto x = rnd_iv<T>(r, r.chance(60) ? 14 : 0);
        one(x);
        T a = (T)std::ldexp((T)1, r.range(L::min_exponent - L::digits, L::max_exponent - 1)), b = 1;
        un<U_log2>(mk(a, finite_num<T>(r))); un<U_exp2>(mk((T)r.range((int)mn - 2, (int)mx + 1), (T)r.range(-40, 40)));
        for (int k = r.range(0, 27); k > 0; --k) b *= 10;
        un<U_log10>(mk(b, r.chance(50) ? b : nxt(b, r.range(-2, 2)))); un<U_exp10>(mk((T)r.range(-5, 30), (T)r.range(0, 40)));
        // results just inside and outside the finite / normal / subnormal range
        T e = r.chance(50) ? mx : r.chance(50) ? (T)L::min_exponent : mn;
        T s = r.chance(33) ? 1 : r.chance(50) ? ln2 : lg2;
        T c = nxt((T)(e * s), r.range(-3, 3)), d = (T)(c - std::ldexp((T)r.range(0, 64), -r.below(12)));
        Rep<T> y = mk(c, d);
        un<U_exp>(y); un<U_exp2>(y); un<U_exp10>(y);
        T f = nxt((T)1, r.range(-30, 30));
        Rep<T> z = mk(f, nxt(f, r.below(4)));
        un<U_log>(z); un<U_log2>(z); un<U_log10>(z);
        T t = (T)std::ldexp((T)(1 + r.below(8)), -r.range(L::digits - 8, 3 * L::digits));
        Rep<T> w = mk(t, r.chance(50) ? t : -t);
        un<U_exp>(w); un<U_exp2>(w); un<U_exp10>(w);
    }
}
#endif
#ifdef P04
template<typename T> T near_mult(Rng& r, int maxbits)       // close to k pi/2
{
    long double k = (long double)(r.next() >> (64 - 1 - r.below(maxbits)));
    T v = (T)(k * 1.57079632679489661923132169163975144L);
    v = nxt(v, r.range(-3, 3));
    return r.chance(50) ? v : -v;
}
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    T hp = (T)1.57079632679489661923132169163975144L;
    auto fwd = [&](Rep<T> const& x) { BOTH(U_sin, x); BOTH(U_cos, x); BOTH(U_tan, x); };
    auto inv = [&](Rep<T> const& x) { BOTH(U_asin, x); BOTH(U_acos, x); BOTH(U_atan, x); };
    every_binade<T>(r, 0, fwd); every_binade<T>(r, 0, inv); every_binade<T>(r, 1, inv); every_binade<T>(r, -1, inv); every_binade<T>(r, hp, fwd);
    long n = 0;
    for (auto& x : edge_boxes<T>(std::vector<T>{ -3 * hp, -2 * hp, -hp, 0, hp, 2 * hp, 3 * hp, 4 * hp })) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 60)) fwd(x);
    for (auto& x : edge_boxes<T>(std::vector<T>{ -1, (T)-0.5, 0, (T)0.5, 1, 2 })) if (mine(n++)) inv(x);
    auto h = edge_boxes<T>(std::vector<T>{ -1, 0, 1 });
    for (auto& x : h) for (auto& y : h) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 12)) { bi<B_atan2>(x, y); if (r.chance(25)) bi<B_atan2>(DRep<T>(x, rnd_dec(r, x)), DRep<T>(y, rnd_dec(r, y))); }
    for (int i = count(500, 20000); i > 0; --i)
    {
        auto x = rnd_iv<T>(r, r.chance(70) ? 8 : 0);
        fwd(x);
        T a = near_mult<T>(r, r.chance(70) ? 6 : r.chance(60) ? 40 : 63);
        int kind = r.below(6);
        T w = kind == 0 ? 0 : kind == 1 ? hp : kind == 2 ? 2 * hp : kind == 3 ? 4 * hp : kind == 4 ? 3 * hp : (T)std::ldexp((T)r.range(1, 40), -r.below(6));
        T b = nxt((T)(a + w), r.range(-2, 2));
        fwd(mk(a, b));
        a = finite_num<T>(r, 6);
        b = nxt((T)(a + w), r.range(-3, 3));
        fwd(mk(a, b));
        a = (T)std::ldexp((T)r.range(1, 64), -r.range(1, 6)); b = nxt((T)(a + hp * r.range(0, 4)), r.range(-2, 2));
        fwd(mk(a, b));
        x = rnd_iv<T>(r, r.chance(70) ? 3 : 0);
        inv(x);
        T c = nxt((T)1, r.range(-6, 0)); if (r.chance(50)) c = -c;
        inv(mk(c, (T)r.range(-16, 16) / 16));
        auto y = rnd_iv<T>(r, r.chance(60) ? 6 : 0); x = rnd_iv<T>(r, r.chance(60) ? 6 : 0);
        bi<B_atan2>(y, x);
        if (r.chance(25)) bi<B_atan2>(DRep<T>(y, rnd_dec(r, y)), DRep<T>(x, rnd_dec(r, x)));
    }
}
#endif
#ifdef P05
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    T big = (T)(L::max_exponent * 0.693147180559945309417232121458176568L);
    auto one = [&](Rep<T> const& x) { BOTH(U_sinh, x); BOTH(U_cosh, x); BOTH(U_tanh, x); BOTH(U_asinh, x); BOTH(U_acosh, x); BOTH(U_atanh, x); };
    every_binade<T>(r, 0, one); every_binade<T>(r, 1, one); every_binade<T>(r, -1, one);
    auto g = edge_boxes<T>(std::vector<T>{ -big, -1, (T)-0.5, 0, (T)0.5, 1, 2, big, L::min(), L::max() / 2 });
    long n = 0;
    for (auto& x : g) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 25)) one(x);
    for (int i = count(800, 30000); i > 0; --i)
    {
        one(rnd_iv<T>(r, r.chance(60) ? 10 : 0));
        T c = nxt((T)(big + (T)0.693147180559945309417232121458176568L * r.range(-1, 2)), r.range(-4, 4)), d = finite_num<T>(r, 4);
        if (r.chance(50)) c = -c;
        un<U_sinh>(mk(c, d)); un<U_cosh>(mk(c, d)); un<U_cosh>(mk(c, (T)-c)); un<U_tanh>(mk(c, d));
        T f = nxt((T)1, r.range(-20, 20));
        un<U_acosh>(mk(f, r.chance(50) ? f : finite_num<T>(r))); un<U_atanh>(mk(f, (T)r.range(-16, 16) / 16)); un<U_atanh>(mk((T)-f, (T)r.range(-16, 16) / 16));
        T t = (T)std::ldexp((T)(1 + r.below(8)), -r.range(4, 2 * L::digits));
        Rep<T> w = mk(t, r.chance(50) ? t : -t);
        one(w);
        T u = (T)std::ldexp((T)r.range(1, 255), -r.range(0, 6));
        un<U_tanh>(mk(u, (T)-u)); un<U_asinh>(mk(u, finite_num<T>(r)));
    }
}
#endif
#ifdef P06
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    auto one = [&](Rep<T> const& x) { BOTH(U_sign, x); BOTH(U_ceil, x); BOTH(U_floor, x); BOTH(U_trunc, x); BOTH(U_round_ties_to_even, x); BOTH(U_round_ties_to_away, x); BOTH(U_abs, x); };
    std::vector<T> v{ (T)-2.5, -2, (T)-1.5, -1, (T)-0.5, 0, (T)0.5, 1, (T)1.5, 2, (T)2.5, 1 / L::epsilon(), 2 / L::epsilon() };
    long n = 0;
    for (auto& x : edge_boxes<T>(v)) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 70)) one(x);
    auto h = edge_boxes<T>(std::vector<T>{ -1, 0, 2 });
    for (auto& x : h) for (auto& y : h) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 40)) { bi<B_min>(x, y); bi<B_max>(x, y); if (r.chance(20)) { bi<B_min>(strongest(x), DRep<T>(y, rnd_dec(r, y))); bi<B_max>(DRep<T>(x, rnd_dec(r, x)), strongest(y)); } }
    for (int i = count(2500, 60000); i > 0; --i)
    {
        one(rnd_iv<T>(r, r.chance(50) ? 30 : 0));
        T a = (T)r.range(-9, 9) / 2, b = (T)r.range(-9, 9) / 2;
        one(mk(nxt(a, r.range(-1, 1)), nxt(b, r.range(-1, 1))));
        a = nxt((T)std::ldexp((T)1, L::digits - r.range(0, 3)), r.range(-5, 5)); if (r.chance(50)) a = -a;
        one(mk(a, finite_num<T>(r))); one(Rep<T>(a, a));
        auto x = rnd_iv<T>(r), y = rnd_iv<T>(r);
        bi<B_min>(x, y); bi<B_max>(x, y);
        if (r.chance(25)) { bi<B_min>(DRep<T>(x, rnd_dec(r, x)), DRep<T>(y, rnd_dec(r, y))); bi<B_max>(DRep<T>(x, rnd_dec(r, x)), DRep<T>(y, rnd_dec(r, y))); }
    }
}
#endif
void run_property(Rng& r) { cases<double>(r); cases<float>(r); cases<long double>(r); }

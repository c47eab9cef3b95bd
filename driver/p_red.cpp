// Reductions (P18).
#include "common.hpp"
#include <list>
#include <deque>
VERIF_MAIN
using namespace p1788::reduction;
static rnd_mode const MODES[] = { rnd_mode::downward, rnd_mode::upward, rnd_mode::to_nearest, rnd_mode::to_zero };
template<typename T> std::string encv(std::vector<T> const& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; put(s, v[i]); }
    return s + "]";
}
#define INITL(FN, MODE) (v.size() == 0 ? FN(std::initializer_list<T>{}, MODE) : v.size() == 1 ? FN({v[0]}, MODE) : v.size() == 2 ? FN({v[0], v[1]}, MODE) : FN({v[0], v[1], v[2]}, MODE))
template<typename T> void one(std::vector<T> const& v)
{
    std::deque<T> dq(v.begin(), v.end());
    for (int m = 0; m < 4; ++m)
    {
        std::string F(1, Tags<T>::c), x = encv(v);
        Routes a, b, c;
        a.call('v', [&] { return enc(sum(v.begin(), v.end(), MODES[m])); });
        b.call('v', [&] { return enc(sum_abs(v.begin(), v.end(), MODES[m])); });
        c.call('v', [&] { return enc(sum_sqr(v.begin(), v.end(), MODES[m])); });
        a.call('p', [&] { return enc(sum(v.data(), v.data() + v.size(), MODES[m])); });
        b.call('q', [&] { return enc(sum_abs(dq.begin(), dq.end(), MODES[m])); });
        c.call('q', [&] { return enc(sum_sqr(dq.begin(), dq.end(), MODES[m])); });
        if (v.size() <= 3)
        {
            a.call('i', [&] { return enc(INITL(sum, MODES[m])); });
            b.call('i', [&] { return enc(INITL(sum_abs, MODES[m])); });
            c.call('i', [&] { return enc(INITL(sum_sqr, MODES[m])); });
        }
        // the order of the elements does not matter
        std::vector<T> w(v.rbegin(), v.rend());
        a.call('r', [&] { return enc(sum(w.begin(), w.end(), MODES[m])); });
        b.call('r', [&] { return enc(sum_abs(w.begin(), w.end(), MODES[m])); });
        c.call('r', [&] { return enc(sum_sqr(w.begin(), w.end(), MODES[m])); });
        a.emit("sum", 0, F[0], F, x, m + 1); b.emit("sum_abs", 0, F[0], F, x, m + 1); c.emit("sum_sqr", 0, F[0], F, x, m + 1);
    }
}
template<typename T> void two(std::vector<T> const& v, std::vector<T> const& w)
{
    for (int m = 0; m < 4; ++m)
    {
        std::string F(1, Tags<T>::c);
        Routes a;
        a.call('v', [&] { return enc(dot(v.begin(), v.end(), w.begin(), MODES[m])); });
        if (v.size() == 2) a.call('i', [&] { return enc(dot({v[0], v[1]}, {w[0], w[1]}, MODES[m])); });
        a.call('s', [&] { return enc(dot(w.begin(), w.end(), v.begin(), MODES[m])); });
        std::vector<T> rv(v.rbegin(), v.rend()), rw(w.rbegin(), w.rend());
        a.call('r', [&] { return enc(dot(rv.begin(), rv.end(), rw.begin(), MODES[m])); });
        a.emit("dot", 0, F[0], F + F, encv(v) + "," + encv(w), m + 1);
    }
}
template<typename T> T elem(Rng& r, int style)
{
    typedef std::numeric_limits<T> L;
    switch (style)
    {
    case 0: return finite_num<T>(r, 10);
    case 1: return finite_num<T>(r);
    case 2: { T a = nxt(L::max(), -r.below(3)); if (r.chance(30)) a /= 2; return r.chance(50) ? a : -a; }
    case 3: { T a = (T)r.range(-9, 9) * L::denorm_min(); return a; }
    case 4: { T a = std::sqrt(L::max()); a = nxt(a, r.range(-2, 2)); if (r.chance(30)) a *= 1000; return r.chance(50) ? a : -a; }
    case 5: { T a = std::sqrt(L::denorm_min()); a = nxt(a, r.range(-2, 2)); if (r.chance(40)) a /= 8; return r.chance(50) ? a : -a; }
    case 6: { int k = r.below(12); return k == 0 ? INF<T>() : k == 1 ? -INF<T>() : k == 2 ? QNAN<T>() : k < 5 ? (T)0 : finite_num<T>(r, 20); }
    case 7: return (T)std::ldexp((T)(r.chance(50) ? 1 : -1), r.range(L::min_exponent - L::digits, L::max_exponent - 1));
    default: return rnd_num<T>(r);
    }
}
// long vectors: small numbers among a few large ones that cancel
template<typename T> void longs(Rng& r)
{
    static int const len[] = { 33, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300, 500, 512, 513, 700, 1000, 1024, 1025, 1500, 2049 };
    for (int i = count(24, 800); i > 0; --i)
    {
        int n = len[r.below(g_cfg.thorough ? 20 : 16)] + (r.chance(30) ? r.range(-1, 1) : 0), e = r.range(20, 90);
        // sometimes the whole range of the format, the smallest numbers included
        bool wide = r.chance(25); if (wide) e = r.range(90, std::min(4000, std::numeric_limits<T>::max_exponent - 14));
        std::vector<T> v, w; T big = 0;
        bool dots = r.chance(40);
        for (int k = 0; k < n; ++k)
        {
            T a = (T)r.range(-9, 9) * (r.chance(10) ? std::numeric_limits<T>::epsilon() : (T)0.125);
            if (wide && r.chance(20)) a = std::ldexp((T)r.range(-3, 3), -r.range(0, std::min(4000, -std::numeric_limits<T>::min_exponent)));
            if (r.chance(4)) { if (big == 0) { big = std::ldexp((T)1, e) + (T)r.range(0, 7); a = big; } else { a = -big; big = 0; } }
            v.push_back(a); w.push_back(dots && r.chance(50) ? (T)r.range(1, 3) : (T)1);
        }
        if (big != 0) v[n - 1] -= big;
        if (dots) two(v, w); else one(v);
    }
}
// results next to the midpoint of two subnormal numbers: half a unit, and something negligible
template<typename T> void halves(Rng& r)
{
    typedef std::numeric_limits<T> L;
    int const E = L::min_exponent - L::digits;              // denorm_min = 2^E
    for (int i = count(24, 400); i > 0; --i)
    {
        int k = 2 * r.range(0, 3) + 1; bool even = (E - 1) % 2 == 0;
        T a = std::ldexp((T)1, even ? (E - 1) / 2 : (E - 2) / 2), t = r.chance(30) ? (T)0 : std::ldexp((T)1, r.chance(40) ? E : r.range(E, (E - 1) / 2 - 8));
        std::vector<T> v(even ? k : 2 * k, a); v.insert(v.begin() + r.below((int)v.size()), t); one(v);
        std::vector<T> w(v); for (auto& x : w) if (x == t && r.chance(50)) x = -x;
        two(v, w);
    }
}
template<typename T> void cases(Rng& r)
{
    halves<T>(r);
    longs<T>(r);
    if (mine(2)) { one<T>({}); two<T>({}, {}); for (T a : pool<T>()) { one<T>({a}); two<T>({a}, {a}); } one<T>({INF<T>()}); one<T>({QNAN<T>()}); two<T>({INF<T>()}, {0}); two<T>({INF<T>(), -INF<T>()}, {1, 1}); }
    for (int i = count(900, 60000); i > 0; --i)
    {
        int n = r.chance(60) ? r.range(1, 4) : r.chance(93) ? r.range(0, 24) : dict_int(r, 140), st = r.below(9);
        std::vector<T> v, w;
        if (n < 0) n = 0;
        for (int k = 0; k < n; ++k) { v.push_back(elem<T>(r, r.chance(85) ? st : r.below(9))); w.push_back(r.chance(70) ? elem<T>(r, st) : elem<T>(r, r.below(9))); }
        // cancellation: the sum of what is there so far, negated and disturbed
        if (n && r.chance(45))
        {
            T s = 0, d = 0; for (int k = 0; k < n; ++k) { s += v[k]; d += v[k] * w[k]; }
            if (std::isfinite(s)) { v.push_back(nxt(-s, r.range(-2, 2))); w.push_back(r.chance(50) ? (T)1 : elem<T>(r, st)); }
            if (std::isfinite(d) && r.chance(60)) { v.push_back(-d); w.push_back(1); }
        }
        // exact halves for ties
        if (n && r.chance(20) && std::isfinite(v[0]) && v[0] != 0) { T u = std::fabs(v[0]) - nxt(std::fabs(v[0]), -1); v.push_back(u / 2); w.push_back(r.chance(50) ? (T)1 : (T)-1); if (r.chance(50)) { v.push_back(std::numeric_limits<T>::denorm_min() * r.range(-1, 1)); w.push_back(1); } }
        if (r.chance(50)) one(v); else two(v, w);
        // products outside the range that cancel
        if (r.chance(20))
        {
            T a = elem<T>(r, r.chance(50) ? 4 : 2), b = elem<T>(r, 4), c = elem<T>(r, 0);
            two<T>({a, a, c}, {b, -b, 1}); two<T>({a, nxt(a, -1)}, {b, -b});
            a = elem<T>(r, 5); b = elem<T>(r, r.chance(50) ? 5 : 3);
            two<T>({a, a, c}, {b, b, r.chance(50) ? (T)1 : (T)0}); one<T>({a, b}); one<T>({a, a, std::numeric_limits<T>::denorm_min()});
        }
    }
}
void run_property(Rng& r) { cases<double>(r); cases<float>(r); cases<long double>(r); }

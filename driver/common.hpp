// Shared part of the trace drivers: exact encoding of numbers, event output,
// case generation and the routes by which an operation can be reached.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <climits>
#include <limits>
#include <string>
#include <vector>
#include <utility>
#include <algorithm>
#include <sstream>
#include <functional>
#include <tuple>
#include "p1788/p1788.hpp"

template<typename T> using Fl = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template<typename T> using I = p1788::infsup::interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
template<typename T> using DI = p1788::infsup::decorated_interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
typedef p1788::decoration::decoration Dec;
template<typename T> using Rep = std::pair<T, T>;
template<typename T> using DRep = std::pair<Rep<T>, Dec>;
namespace ex = p1788::exception;

// ---- access to the stored representation (read and write) ------------------
template<typename T> struct Tags;
template<> struct Tags<float> { static constexpr char c = 'f'; };
template<> struct Tags<double> { static constexpr char c = 'd'; };
template<> struct Tags<long double> { static constexpr char c = 'l'; };
// an object consists of its representation only, whatever the member is called
static_assert(sizeof(I<float>) == sizeof(Rep<float>) && sizeof(DI<float>) == sizeof(DRep<float>) && sizeof(I<long double>) == sizeof(Rep<long double>)
              && sizeof(DI<long double>) == sizeof(DRep<long double>) && sizeof(I<double>) == sizeof(Rep<double>) && sizeof(DI<double>) == sizeof(DRep<double>), "layout");
template<typename T> Rep<T>& rep(I<T>& x) { return reinterpret_cast<Rep<T>&>(x); }
template<typename T> DRep<T>& rep(DI<T>& x) { return reinterpret_cast<DRep<T>&>(x); }
template<typename T> Rep<T> rep(I<T> const& x) { return reinterpret_cast<Rep<T> const&>(x); }
template<typename T> DRep<T> rep(DI<T> const& x) { return reinterpret_cast<DRep<T> const&>(x); }
template<typename T> I<T> obj(Rep<T> const& r) { I<T> x; rep(x) = r; return x; }
template<typename T> DI<T> obj(DRep<T> const& r) { DI<T> x; rep(x) = r; return x; }

// ---- exact encoding ---------------------------------------------------------
template<typename T> void put(std::string& s, T v)
{
    char b[160];
    if (std::isnan(v)) { s += "[2,0,[0]]"; return; }
    if (std::isinf(v)) { s += v > 0 ? "[1,0,[0]]" : "[-1,0,[0]]"; return; }
    if (v == 0) { s += "[0,0,[0]]"; return; }
    int e;
    long double m = std::frexp(std::fabs((long double)v), &e);
    uint64_t u = (uint64_t)std::ldexp(m, 64);
    e -= 64;
    while (!(u & 1)) { u >>= 1; ++e; }
    int n = snprintf(b, sizeof b, "[0,%d,[%d", e, v < 0 ? -1 : 1);
    while (u) { n += snprintf(b + n, sizeof b - n, ",%u", (unsigned)(u & 32767)); u >>= 15; }
    s += b; s += "]]";
}
template<typename T> std::string enc(T v) { std::string s; put(s, v); return s; }
template<typename T> std::string enc(Rep<T> const& r) { std::string s = "["; put(s, r.first); s += ","; put(s, r.second); return s + "]"; }
template<typename T> std::string enc(DRep<T> const& r)
{
    std::string s = "["; put(s, r.first.first); s += ","; put(s, r.first.second);
    s += "," + std::to_string((int)r.second); return s + "]";
}
inline std::string enc(bool b) { return b ? "1" : "0"; }
inline std::string enc(int b) { return std::to_string(b); }
template<typename T> std::string enc(I<T> const& x) { return enc(rep(x)); }
template<typename T> std::string enc(DI<T> const& x) { return enc(rep(x)); }
template<typename A> std::string enc2(std::pair<A, A> const& p) { return "[" + enc(p.first) + "," + enc(p.second) + "]"; }
inline std::string encs(std::string const& t)
{
    std::string s = "[";
    for (size_t i = 0; i < t.size(); ++i) { if (i) s += ","; s += std::to_string((unsigned)(unsigned char)t[i]); }
    return s + "]";
}

// ---- events -----------------------------------------------------------------
extern FILE* g_out;
extern long g_events, g_calls;
extern int g_pre, g_cwd;      // flags already raised and control word during the calls; -1: not used
struct Routes
{
    std::vector<std::pair<std::string, std::string>> r;   // result text -> route letters
    template<typename Fn> void call(char route, Fn fn)
    {
        std::string res;
        ex::clear();
        if (g_pre >= 0) { ex::state() = (ex::exception_bits)g_pre; ex::set_throw_exception_cwd((ex::exception_bits)g_cwd); }
        ++g_calls;
        try { res = "\"r\":" + fn() + ",\"ex\":0"; }
        catch (ex::undefined_operation_exception&) { res = "\"r\":[],\"ex\":1"; }
        catch (ex::possibly_undefined_operation_exception&) { res = "\"r\":[],\"ex\":2"; }
        catch (ex::interval_part_of_nai_exception&) { res = "\"r\":[],\"ex\":4"; }
        catch (ex::invalid_operand_exception&) { res = "\"r\":[],\"ex\":8"; }
        catch (std::exception&) { res = "\"r\":[],\"ex\":32"; }
        catch (...) { res = "\"r\":[],\"ex\":64"; }
        res += ",\"fl\":" + std::to_string((int)ex::state());
        if (g_pre >= 0)
        {
            res += ",\"pre\":" + std::to_string(g_pre) + ",\"cwd\":[" + std::to_string(g_cwd) + "," + std::to_string((int)ex::get_throw_exception_cwd()) + "]";
            ex::set_throw_exception_cwd(ex::none_bit);
        }
        for (auto& p : r) if (p.first == res) { p.second += route; return; }
        r.push_back(std::make_pair(res, std::string(1, route)));
    }
    // op, k: 0 bare 1 decorated, F result format, A argument formats
    void emit(char const* op, int k, char F, std::string const& A, std::string const& x, int n = 0, std::string const& extra = "")
    {
        for (auto& p : r)
        {
            fprintf(g_out, "{\"op\":\"%s\",\"k\":%d,\"F\":\"%c\",\"A\":\"%s\",\"x\":[%s],\"n\":%d,%s,\"rt\":\"%s\"%s}\n",
                    op, k, F, A.c_str(), x.c_str(), n, p.first.c_str(), p.second.c_str(), extra.c_str());
            ++g_events;
        }
    }
};

// ---- random numbers -----------------------------------------------------------
struct Rng
{
    uint64_t s;
    // the state advances by a constant: seeds are scrambled first, else neighbouring seeds give the same sequence, shifted
    explicit Rng(uint64_t seed) : s(scramble(scramble(seed ^ 0xD1B54A32D192ED03ull) + 0x1234567ull)) { next(); next(); }
    static uint64_t scramble(uint64_t z) { z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDull; z = (z ^ (z >> 33)) * 0xC4CEB9FE1A85EC53ull; return z ^ (z >> 33); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
};

template<typename T> T nxt(T v, int k)
{
    for (; k > 0; --k) v = std::nextafter(v, std::numeric_limits<T>::infinity());
    for (; k < 0; ++k) v = std::nextafter(v, -std::numeric_limits<T>::infinity());
    return v;
}
template<typename T> T INF() { return std::numeric_limits<T>::infinity(); }
template<typename T> T QNAN() { return std::numeric_limits<T>::quiet_NaN(); }

// numbers that occur in the sources of the library (written by check.py): like the dictionary of a fuzzer,
// they only steer the choice of arguments
inline std::vector<long double> const& dict()
{
    static std::vector<long double> d;
    static bool read = false;
    if (!read)
    {
        read = true;
        char const* f = getenv("VERIF_DICT");
        FILE* in = f ? fopen(f, "r") : 0;
        char b[256];
        while (in && fgets(b, sizeof b, in)) { long double v = strtold(b, 0); if (std::isfinite(v)) d.push_back(v); }
        if (in) fclose(in);
        // and the limits of the integer types
        for (int b : { 15, 16, 31, 32, 53, 62, 63, 64 }) { d.push_back(std::ldexp(1.0L, b)); d.push_back(std::ldexp(1.0L, b) - 1); }
    }
    return d;
}
// an integer of the dictionary with |n| <= lim, or one next to it; otherwise a random one
inline int dict_int(Rng& r, int lim)
{
    for (int i = 0; i < 8 && !dict().empty(); ++i)
    {
        long double v = dict()[r.below((int)dict().size())];
        if (v == std::floor(v) && std::fabs(v) < lim) return (int)v + r.range(-1, 1);
    }
    return r.range(0, lim);
}
template<typename T> std::vector<T> const& dict_pool()
{
    static std::vector<T> p;
    if (p.empty())
    {
        for (long double v : dict())
        {
            std::vector<T> a;
            T w = (T)v;
            if (std::isfinite(w)) { a.push_back(w); a.push_back(nxt(w, 1)); a.push_back(nxt(w, -1)); if (w != 0 && std::isfinite(1 / w)) a.push_back(1 / w); }
            if (v == std::floor(v) && std::fabs(v) < 20000) for (int s = -1; s <= 1; s += 2)
            {
                w = std::ldexp((T)1, s * (int)v); if (std::isfinite(w) && w != 0) { a.push_back(w); a.push_back(nxt(w, 1)); a.push_back(nxt(w, -1)); }
                if (std::fabs(v) < 400) { w = (T)std::pow(10.0L, s * v); if (std::isfinite(w) && w != 0) { a.push_back(w); a.push_back(nxt(w, 1)); a.push_back(nxt(w, -1)); } }
            }
            for (T x : a) { p.push_back(x); p.push_back(-x); }
        }
        if (p.empty()) p.push_back(1);
    }
    return p;
}
template<typename T> std::vector<T> const& pool()
{
    static std::vector<T> p;
    if (p.empty())
    {
        typedef std::numeric_limits<T> L;
        T pi = (T)3.14159265358979323846264338327950288L, e1 = (T)2.71828182845904523536028747135266250L;
        T a[] = { 0, L::denorm_min(), 2 * L::denorm_min(), 3 * L::denorm_min(), nxt(L::min(), -1), L::min(), nxt(L::min(), 1), 2 * L::min(),
                  L::max(), nxt(L::max(), -1), L::max() / 2, std::sqrt(L::max()), nxt(std::sqrt(L::max()), 1), std::sqrt(L::min()),
                  1, nxt((T)1, 1), nxt((T)1, -1), 2, nxt((T)2, 1), nxt((T)2, -1), 3, 4, 5, 7, 8, 10, 16, 100, 1000, (T)0.5, (T)0.25, (T)0.125, (T)1.5, (T)2.5, (T)3.5, (T)0.75,
                  nxt((T)0.5, -1), nxt((T)0.5, 1), (T)0.1L, (T)0.3L, 1 / (T)3, 2 / (T)3, pi, nxt(pi, 1), pi / 2, nxt(pi / 2, 1), nxt(pi / 2, -1), 3 * pi / 2, 2 * pi, nxt(2 * pi, 1), nxt(2 * pi, -1), pi / 4, e1,
                  L::epsilon(), L::epsilon() / 2, 1 / L::epsilon(), 2 / L::epsilon(), nxt(1 / L::epsilon(), -1), nxt(2 / L::epsilon(), -1), (T)(1 / L::epsilon() / 2), nxt((T)(1 / L::epsilon() / 2), -1) };
        for (T v : a) { p.push_back(v); if (v != 0) p.push_back(-v); }
        p.push_back((T)-0.0);
    }
    return p;
}
// a finite number in one of the outermost binades of a format that T contains; sel < 0: any of them
template<typename T> T edge_num(Rng& r, int sel = -1)
{
    typedef std::numeric_limits<T> L; typedef std::numeric_limits<float> FL; typedef std::numeric_limits<double> DL;
    if (sel < 0) sel = r.below(6);
    int emin = L::min_exponent, emax = L::max_exponent, dig = L::digits;
    if (sel / 2 == 1 && DL::digits < L::digits) { emin = DL::min_exponent; emax = DL::max_exponent; dig = DL::digits; }
    if (sel / 2 == 2 && FL::digits < L::digits) { emin = FL::min_exponent; emax = FL::max_exponent; dig = FL::digits; }
    int e = sel % 2 ? emax - r.below(2) : emin + r.range(-1, 1);       // the number is in [2^(e-1), 2^e)
    long double m;
    switch (r.below(3))
    {
    case 0: m = (long double)(r.next() >> (64 - L::digits)) / std::ldexp(1.0L, L::digits + 1) + 0.5L; break;
    case 1: m = 0.5L + (long double)r.below(9) * std::ldexp(1.0L, -dig - r.below(2)); break;       // just above a power of two
    default: m = 0.5L + (long double)r.below(8) / 16;
    }
    T v = (T)std::ldexp(m, e);
    if (!std::isfinite(v)) v = L::max();
    return r.chance(50) ? v : -v;
}
template<typename T> Rep<T> mk(T a, T b) { return a <= b ? Rep<T>(a, b) : Rep<T>(b, a); }
// a number of any size class of the format: subnormal, next to the least normal one, ordinary, next to the largest
template<typename T> T class_num(Rng& r, int c = -1)
{
    typedef std::numeric_limits<T> L; T v;
    switch (c < 0 ? r.below(8) : c)
    {
    case 0: v = L::denorm_min() * (T)r.range(1, 9); break;
    case 1: v = L::denorm_min() * (T)(r.next() >> (64 - r.range(1, L::digits - 1))); break;
    case 2: v = std::ldexp((T)1, L::min_exponent - 1 + r.range(-3, 2)) * (T)(1 + r.below(16) / 16.0); break;
    case 3: v = nxt(L::max(), -r.below(4)); break;
    case 4: v = std::ldexp((T)1, L::max_exponent - r.range(1, 4)) * (T)(1 + r.below(8) / 8.0); break;
    case 5: v = (T)r.range(1, 40); break;
    case 6: v = (T)r.range(1, 63) / 32; break;
    default: v = std::fabs(edge_num<T>(r)); break;
    }
    if (!std::isfinite(v)) v = L::max();
    return r.chance(50) ? v : -v;
}
// finite, a unit away from x
template<typename T> T about_num(Rng& r, T x) { if (std::isnan(x)) x = 1; if (std::isinf(x)) x = x < 0 ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::max(); if (r.chance(50)) return x; T y = nxt(x, r.range(-2, 2)); return std::isfinite(y) ? y : x; }
// a divisor b and a dividend c whose quotients are numbers of those classes
template<typename T> void quot_pair(Rng& r, Rep<T>& b, Rep<T>& c)
{
    // often numbers from the opposite ends of the range
    int o = r.below(5), cb = o == 0 ? r.range(1, 2) : o == 1 ? r.range(3, 4) : -1, cq = o == 0 ? r.range(3, 5) : o == 1 ? r.range(0, 2) : -1;
    T b1 = class_num<T>(r, cb), b2 = r.chance(40) ? (T)0 : r.chance(30) ? b1 : r.chance(30) ? about_num(r, (T)(b1 * 2)) : class_num<T>(r, cb);
    if (r.chance(60)) b2 = std::copysign(b2, b1);
    T q1 = class_num<T>(r, cq), q2 = r.chance(30) ? q1 : class_num<T>(r, cq); if (r.chance(60)) q2 = std::copysign(q2, q1);
    T c1 = about_num(r, (T)(q1 * (b1 != 0 ? b1 : b2))), c2 = r.chance(15) ? (T)0 : about_num(r, (T)(q2 * (b2 != 0 && r.chance(60) ? b2 : b1)));
    b = mk(b1, b2); c = mk(c1, c2);
    if (r.chance(8)) b = b.second > 0 ? Rep<T>(b.first, INF<T>()) : Rep<T>(-INF<T>(), b.second);
    if (r.chance(8)) c = c.second > 0 ? Rep<T>(c.first, INF<T>()) : Rep<T>(-INF<T>(), c.second);
}
// two factors whose products are numbers of those classes
template<typename T> void prod_pair(Rng& r, Rep<T>& x, Rep<T>& y)
{
    T x1 = class_num<T>(r), x2 = r.chance(30) ? x1 : r.chance(20) ? (T)0 : class_num<T>(r), p1 = class_num<T>(r), p2 = class_num<T>(r);
    x = mk(x1, x2); y = mk(about_num(r, (T)(p1 / x1)), about_num(r, (T)(p2 / (x2 != 0 ? x2 : x1))));
}
// exponent limits: lim = 0 whole range, otherwise |exponent| <= lim
template<typename T> T rnd_num(Rng& r, int lim = 0)
{
    typedef std::numeric_limits<T> L;
    T v;
    switch (r.below(12))
    {
    case 11: if (!lim) return edge_num<T>(r); // otherwise a number of the pool
    case 0: case 1:
        do v = pool<T>()[r.below((int)pool<T>().size())]; while (lim && v != 0 && (std::ilogb(v) > lim || std::ilogb(v) < -lim));
        return v;
    case 10:
        for (int i = 0; i < 20; ++i)
        {
            v = dict_pool<T>()[r.below((int)dict_pool<T>().size())];
            if (r.chance(30)) v *= (T)r.range(1, 64) / 32;
            if (std::isfinite(v) && !(lim && v != 0 && (std::ilogb(v) > lim || std::ilogb(v) < -lim))) return v;
        }
        return 1;
    case 2: return (T)r.range(-12, 12) / (T)(1 << r.below(4));
    case 3: case 4:
    {
        long double m = (long double)(r.next() >> (64 - L::digits)) + 1;
        v = (T)std::ldexp(m, r.range(-8, 8) - L::digits);
        return r.chance(50) ? v : -v;
    }
    case 5: case 6:
    {
        long double m = (long double)(r.next() >> (64 - L::digits)) + 1;
        int e = lim ? r.range(-lim, lim) : r.range(L::min_exponent - L::digits, L::max_exponent);
        if (!lim && r.chance(40)) { int m = 16 << r.below(4); e = r.range(-m, m); }
        v = (T)std::ldexp(m, e - L::digits);
        if (std::isinf(v)) v = L::max();
        return r.chance(50) ? v : -v;
    }
    case 7:
    {
        long double m = (long double)r.range(1, 15);
        int e = lim ? r.range(-lim, lim - 4) : r.range(L::min_exponent - L::digits, L::max_exponent - 4);
        v = (T)std::ldexp(m, e);
        return r.chance(50) ? v : -v;
    }
    case 8:
        if (lim) return nxt((T)r.range(-20, 20), r.range(-3, 3));
        v = (T)std::ldexp((long double)(r.next() >> (64 - L::digits)), L::min_exponent - L::digits - r.below(L::digits));
        return r.chance(50) ? v : -v;
    default:
        v = rnd_num<T>(r, lim);
        return nxt(v, r.range(-3, 3));
    }
}
template<typename T> T finite_num(Rng& r, int lim = 0) { T v; do v = rnd_num<T>(r, lim); while (!std::isfinite(v)); return v; }
template<typename T> Rep<T> empty_rep() { return Rep<T>(QNAN<T>(), QNAN<T>()); }
// flags: 1 no empty, 2 no infinite bound
template<typename T> Rep<T> rnd_iv(Rng& r, int lim = 0, int flags = 0)
{
    int k = r.below(32);
    if (k == 0 && !(flags & 1)) return empty_rep<T>();
    if (k == 1 && !(flags & 2)) return Rep<T>(-INF<T>(), INF<T>());
    if (k <= 3 && !(flags & 2)) return Rep<T>(-INF<T>(), finite_num<T>(r, lim));
    if (k <= 5 && !(flags & 2)) return Rep<T>(finite_num<T>(r, lim), INF<T>());
    T a = finite_num<T>(r, lim);
    if (k <= 8) return Rep<T>(a, a);
    if (k <= 10) return a >= 0 ? Rep<T>(r.chance(50) ? (T)0 : (T)-0.0, a) : Rep<T>(a, r.chance(50) ? (T)0 : (T)-0.0);
    if (k <= 14) { T b = nxt(a, r.range(1, 8)); return std::isinf(b) ? Rep<T>(a, a) : Rep<T>(a, b); }
    if (k <= 17) { T b = (T)(a + std::fabs(a) * (T)std::ldexp(1.0, -r.below(24))); if (!std::isfinite(b)) b = std::numeric_limits<T>::max(); return mk(a, b); }
    if (k == 18) return mk(a, r.chance(50) ? (T)-a : -nxt(a, r.range(-5, 5)));
    if (k == 20 && !lim && r.chance(50)) return mk(class_num<T>(r), r.chance(20) ? (T)0 : class_num<T>(r));
    if (k == 20 && !lim) { int sel = r.below(6); return mk(edge_num<T>(r, sel), edge_num<T>(r, sel)); }
    if (k == 19)
    {
        T w = dict_pool<T>()[r.below((int)dict_pool<T>().size())], b = nxt((T)(a + w), r.range(-1, 1));
        if (std::isfinite(b) && std::isfinite(w) && !(lim && w != 0 && std::abs(std::ilogb(w)) > lim)) return mk(a, b);
    }
    return mk(a, finite_num<T>(r, lim));
}
template<typename T> Dec rnd_dec(Rng& r, Rep<T> const& x)
{
    static Dec const d[] = { Dec::trv, Dec::def, Dec::dac, Dec::com };
    if (std::isnan(x.first)) return r.chance(30) ? Dec::ill : Dec::trv;
    if (std::isinf(x.first) || std::isinf(x.second)) return d[r.below(3)];
    return r.chance(60) ? Dec::com : d[r.below(4)];
}
template<typename T> DRep<T> rnd_div(Rng& r, int lim = 0, int flags = 0) { Rep<T> x = rnd_iv<T>(r, lim, flags); return DRep<T>(x, rnd_dec(r, x)); }
template<typename T> DRep<T> strongest(Rep<T> const& x)
{
    return DRep<T>(x, std::isnan(x.first) ? Dec::trv : std::isinf(x.first) || std::isinf(x.second) ? Dec::dac : Dec::com);
}
// a few representations that violate the invariants of the library
template<typename T> Rep<T> bad_rep(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return Rep<T>((T)2, (T)1);
    case 1: return Rep<T>(QNAN<T>(), (T)1);
    case 2: return Rep<T>((T)1, QNAN<T>());
    case 3: return Rep<T>(INF<T>(), INF<T>());
    default: return Rep<T>(-INF<T>(), -INF<T>());
    }
}
template<typename T> DRep<T> bad_drep(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return DRep<T>(bad_rep<T>(r), Dec::trv);
    case 1: return DRep<T>(Rep<T>((T)1, INF<T>()), Dec::com);
    case 2: return DRep<T>(empty_rep<T>(), Dec::def);
    case 3: return DRep<T>(Rep<T>((T)1, (T)2), Dec::ill);
    default: return DRep<T>(empty_rep<T>(), Dec::com);
    }
}

// ---- run configuration ------------------------------------------------------
struct Cfg { std::string prop; uint64_t seed; bool thorough; int shard, shards; double scale; };
extern Cfg g_cfg;
// true if directed case number i belongs to this shard
inline bool mine(long i) { return i % g_cfg.shards == g_cfg.shard; }
inline int count(int quick, int thorough) { double c = (g_cfg.thorough ? thorough : quick) * g_cfg.scale / g_cfg.shards; return c < 1 ? 1 : (int)c; }

void run_property(Rng& r);

#define VERIF_MAIN \
    FILE* g_out; long g_events, g_calls; int g_pre = -1, g_cwd; Cfg g_cfg; \
    int main(int argc, char** argv) { \
        if (argc < 7) return 2; \
        g_cfg.prop = argv[1]; g_cfg.seed = strtoull(argv[2], 0, 10); g_cfg.thorough = !strcmp(argv[3], "thorough"); \
        g_cfg.shard = atoi(argv[4]); g_cfg.shards = atoi(argv[5]); g_cfg.scale = argc > 7 ? atof(argv[7]) : 1.0; \
        g_out = fopen(argv[6], "w"); if (!g_out) return 2; \
        static char buf[1 << 20]; setvbuf(g_out, buf, _IOFBF, sizeof buf); \
        Rng r(g_cfg.seed * 1000003u + g_cfg.shard + 1); \
        run_property(r); fclose(g_out); \
        fprintf(stdout, "calls=%ld events=%ld\n", g_calls, g_events); return 0; }
#endif

// Decorations of forward operations (P07): domain edges with every input decoration, and
// random chains in which results are used again.  -DPART=0..2 selects the format.
#include "ops.hpp"
VERIF_MAIN
#if PART == 0
typedef double T;
#elif PART == 1
typedef float T;
#else
typedef long double T;
#endif
typedef Rep<T> B; typedef DRep<T> D;
static Dec const DECS[] = { Dec::trv, Dec::def, Dec::dac, Dec::com };
static D nai() { return D(empty_rep<T>(), Dec::ill); }
// all decorations the interval may carry
static std::vector<D> all_dec(B const& x)
{
    std::vector<D> v;
    if (std::isnan(x.first)) { v.push_back(D(x, Dec::trv)); v.push_back(nai()); return v; }
    for (Dec d : DECS) if (d != Dec::com || (std::isfinite(x.first) && std::isfinite(x.second))) v.push_back(D(x, d));
    return v;
}
static std::vector<B> boxes(std::vector<T> const& v, bool near)
{
    std::vector<T> w; w.push_back(-INF<T>());
    for (T a : v) { if (near) w.push_back(nxt(a, -1)); w.push_back(a); if (near) w.push_back(nxt(a, 1)); }
    w.push_back(INF<T>()); std::sort(w.begin(), w.end());
    std::vector<B> g; g.push_back(empty_rep<T>());
    for (size_t i = 0; i < w.size(); ++i) for (size_t j = i; j < w.size(); ++j)
        if (w[i] != INF<T>() && w[j] != -INF<T>()) g.push_back(B(w[i], w[j]));
    return g;
}
static D result;          // of the last call made through chain()
typedef void (*Un)(D const&);
template<typename Op> void chain_un(D const& x) { un<Op>(x); result = Op::template flavor<T>(x); }
template<typename Op> void chain_bi(D const& x, D const& y) { bi<Op>(x, y); result = Op::template flavor<T>(x, y); }
struct Named { void (*f)(D const&); int lim; };
static Named const UNS[] = {
    { chain_un<U_neg>, 0 }, { chain_un<U_recip>, 0 }, { chain_un<U_sqr>, 0 }, { chain_un<U_sqrt>, 0 }, { chain_un<U_exp>, 14 }, { chain_un<U_exp2>, 14 }, { chain_un<U_exp10>, 14 },
    { chain_un<U_log>, 0 }, { chain_un<U_log2>, 0 }, { chain_un<U_log10>, 0 }, { chain_un<U_sin>, 20 }, { chain_un<U_cos>, 20 }, { chain_un<U_tan>, 20 }, { chain_un<U_asin>, 0 }, { chain_un<U_acos>, 0 },
    { chain_un<U_atan>, 0 }, { chain_un<U_sinh>, 14 }, { chain_un<U_cosh>, 14 }, { chain_un<U_tanh>, 14 }, { chain_un<U_asinh>, 0 }, { chain_un<U_acosh>, 0 }, { chain_un<U_atanh>, 0 },
    { chain_un<U_sign>, 0 }, { chain_un<U_ceil>, 0 }, { chain_un<U_floor>, 0 }, { chain_un<U_trunc>, 0 }, { chain_un<U_round_ties_to_even>, 0 }, { chain_un<U_round_ties_to_away>, 0 }, { chain_un<U_abs>, 0 }, { chain_un<U_pos>, 0 } };
static void (*const BIS[])(D const&, D const&) = { chain_bi<B_add>, chain_bi<B_sub>, chain_bi<B_mul>, chain_bi<B_div>, chain_bi<B_min>, chain_bi<B_max>, chain_bi<B_atan2>, chain_bi<B_pow> };
static const int NU = sizeof UNS / sizeof *UNS, NB = sizeof BIS / sizeof *BIS;

static void edges(Rng& r)
{
    T hp = (T)1.57079632679489661923132169163975144L;
    long n = 0;
    int pct = g_cfg.thorough ? 100 : 9;
    for (auto& x : boxes(std::vector<T>{ -2, -1, 0, 1, 2, (T)2.5 }, true))
        for (auto& d : all_dec(x)) for (auto& u : UNS) if (mine(n++) && r.chance(pct)) u.f(d);
    for (auto& x : boxes(std::vector<T>{ -2 * hp, -hp, hp, 3 * hp }, true))
        for (auto& d : all_dec(x)) if (mine(n++)) { un<U_tan>(d); un<U_sin>(d); un<U_cos>(d); }
    // step functions between neighbours of small multiples of 1/2
    static Un const st[] = { un<U_sign, D>, un<U_ceil, D>, un<U_floor, D>, un<U_trunc, D>, un<U_round_ties_to_even, D>, un<U_round_ties_to_away, D> };
    for (int m = -4; m <= 4; ++m) for (int q = 0; q <= 2; ++q) for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j)
    {
        T a = nxt((T)m / 2, i), b = nxt((T)(m + q) / 2, j);
        if (a <= b) for (auto f : st) if (mine(n++) && (g_cfg.thorough || r.chance(50))) f(strongest(B(a, b)));
    }
    // overflow: finite inputs with unbounded results
    T big = std::numeric_limits<T>::max(), lg = (T)(std::numeric_limits<T>::max_exponent * 0.693147180559945309417232121458176568L);
    for (auto& x : boxes(std::vector<T>{ lg, (T)(lg / (T)0.693147180559945309417232121458176568L), (T)(lg / (T)2.302585092994045684017991454684364208L), -lg }, true))
        for (auto& d : all_dec(x)) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 25)) { un<U_exp>(d); un<U_exp2>(d); un<U_exp10>(d); un<U_sinh>(d); un<U_cosh>(d); }
    for (auto& x : boxes(std::vector<T>{ -big, -std::sqrt(big), std::numeric_limits<T>::denorm_min(), 1 / big, std::sqrt(big), big }, true))
        for (auto& d : all_dec(x)) if (mine(n++) && r.chance(pct * 3)) { un<U_sqr>(d); un<U_recip>(d); do_pown(d, 2); do_pown(d, -1); do_pown(d, 3); bi<B_add>(d, d); bi<B_mul>(d, strongest(B((T)1.5, (T)2))); do_fma(d, strongest(B((T)1, (T)1)), d); un<U_ceil>(d); }
    auto h = boxes(std::vector<T>{ -1, 0, 1 }, true);
    for (auto& x : h) for (auto& y : h) if (mine(n++) && r.chance(g_cfg.thorough ? 60 : 6))
        for (auto f : BIS) { auto ax = all_dec(x), ay = all_dec(y); f(ax[r.below((int)ax.size())], ay[r.below((int)ay.size())]); f(strongest(x), strongest(y)); }
    for (auto& x : boxes(std::vector<T>{ -1, 0, 1 }, true)) for (int p : { -3, -2, -1, 0, 1, 2, 3 }) for (auto& d : all_dec(x)) if (mine(n++) && r.chance(pct * 4)) do_pown(d, p);
    for (auto& x : boxes(std::vector<T>{ -1, 0, 1, 2 }, false)) for (auto& y : boxes(std::vector<T>{ -1, 0, 1, 2, (T)0.5 }, false)) if (mine(n++)) { auto ax = all_dec(x), ay = all_dec(y); bi<B_pow>(strongest(x), strongest(y)); bi<B_pow>(ax[r.below((int)ax.size())], ay[r.below((int)ay.size())]); }
    if (mine(0)) { for (auto& u : UNS) u.f(nai()); for (auto f : BIS) { f(nai(), strongest(B(1, 2))); f(strongest(B(1, 2)), nai()); f(nai(), strongest(empty_rep<T>())); } do_pown(nai(), 0); do_pown(nai(), 3); do_fma(nai(), strongest(B(1, 2)), strongest(B(1, 2))); do_fma(strongest(B(1, 2)), nai(), strongest(B(1, 2))); do_fma(strongest(B(1, 2)), strongest(B(1, 2)), nai()); do_fma(strongest(empty_rep<T>()), strongest(B(1, 2)), nai()); }
}
static bool small(D const& d, int lim)
{
    if (!lim || std::isnan(d.first.first)) return true;
    auto ok = [&](T v) { return std::isinf(v) || v == 0 || (std::ilogb(v) <= lim && std::ilogb(v) > -300); };
    return ok(d.first.first) && ok(d.first.second);
}
static void chains(Rng& r)
{
    for (int i = count(120, 6000); i > 0; --i)
    {
        std::vector<D> v;
        for (int k = 0; k < 3; ++k) v.push_back(r.chance(3) ? nai() : rnd_div<T>(r, 6, r.chance(80) ? 1 : 0));
        for (int k = 0; k < 14; ++k)
        {
            D x = v[r.below((int)v.size())], y = v[r.below((int)v.size())];
            int w = r.below(100);
            if (w < 50) { Named const& u = UNS[r.below(NU)]; if (!small(x, u.lim)) continue; u.f(x); }
            else if (w < 90)
            {
                int b = r.below(NB);
                if (BIS[b] == &chain_bi<B_pow> && !(small(x, 40) && small(y, 10))) continue;
                BIS[b](x, y);
            }
            else if (w < 95) { int p = r.range(-4, 4); do_pown(x, p); result = Fl<T>::pown(x, p); }
            else { D z = v[r.below((int)v.size())]; do_fma(x, y, z); result = Fl<T>::fma(x, y, z); }
            v.push_back(result);
            if (v.size() > 6) v.erase(v.begin() + r.below(3));
        }
    }
}
static D any_dec(Rng& r, B const& x) { auto v = all_dec(x); return r.chance(60) ? strongest(x) : v[r.below((int)v.size())]; }
// arguments of every size: far periods, results at the limits of the format, pieces of a domain
static void sizes(Rng& r)
{
    const long double hp = 1.57079632679489661923132169163975144L;
    for (int i = count(150, 6000); i > 0; --i)
    {
        for (auto& u : UNS) if (r.chance(35)) { B x = rnd_iv<T>(r, u.lim && r.chance(90) ? u.lim : u.lim ? 20 : 0); u.f(any_dec(r, x)); }
        // around multiples of pi/2, also far ones
        T a = (T)((long double)(r.next() >> r.range(4, 62)) * hp); a = nxt(a, r.range(-2, 2)); if (r.chance(50)) a = -a;
        T b = r.chance(40) ? nxt(a, r.range(0, 4)) : (T)(a + (T)r.below(50) / 8);
        if (b < a) b = a;
        un<U_tan>(any_dec(r, B(a, b))); if (r.chance(30)) { un<U_sin>(any_dec(r, B(a, b))); un<U_cos>(any_dec(r, B(a, b))); }
        // products, quotients, sums, powers at the limits
        B x, y; quot_pair(r, x, y); bi<B_div>(any_dec(r, y), any_dec(r, x)); if (r.chance(30)) un<U_recip>(any_dec(r, x));
        prod_pair(r, x, y); bi<B_mul>(any_dec(r, x), any_dec(r, y)); do_fma(any_dec(r, x), any_dec(r, y), any_dec(r, mk(class_num<T>(r), class_num<T>(r))));
        x = mk(class_num<T>(r), class_num<T>(r)); y = mk(class_num<T>(r), class_num<T>(r)); if (r.chance(50)) bi<B_add>(any_dec(r, x), any_dec(r, y)); else bi<B_sub>(any_dec(r, x), any_dec(r, y));
        if (r.chance(40)) un<U_sqr>(any_dec(r, x));
        int p = r.chance(70) ? r.range(-9, 9) : (r.chance(50) ? 1 : -1) * dict_int(r, 3000);
        do_pown(any_dec(r, r.chance(50) ? x : rnd_iv<T>(r, 20)), p);
        if (r.chance(40)) bi<B_pow>(any_dec(r, rnd_iv<T>(r, 12)), any_dec(r, rnd_iv<T>(r, 6)));
        if (r.chance(60)) bi<B_atan2>(any_dec(r, rnd_iv<T>(r)), any_dec(r, rnd_iv<T>(r)));
        // step functions at whole numbers and halves of every size
        T h = (T)(r.next() >> r.range(1, 62)) / (T)2; if (r.chance(50)) h = -h; b = r.chance(50) ? h : nxt(h, r.range(0, 2)); a = r.chance(50) ? h : nxt(h, r.range(-2, 0));
        static Un const st[] = { un<U_sign, D>, un<U_ceil, D>, un<U_floor, D>, un<U_trunc, D>, un<U_round_ties_to_even, D>, un<U_round_ties_to_away, D> };
        for (auto f : st) if (r.chance(40)) f(any_dec(r, B(a, b)));
    }
}
void run_property(Rng& r) { edges(r); chains(r); sizes(r); }

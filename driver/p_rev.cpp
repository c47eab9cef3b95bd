// Cancellation (P14), two-output division (P15), reverse algebraic (P16) and periodic (P17)
// operations, same format and mixed; compiled with -DP14 .. -DP17.
#include "rev.hpp"
VERIF_MAIN
template<typename R> DRep<R> dd(Rng& r, Rep<R> const& x) { return DRep<R>(x, rnd_dec(r, x)); }
template<typename T> std::vector<Rep<T>> edge_boxes(std::vector<T> const& v, bool around = true)
{
    std::vector<Rep<T>> g;
    g.push_back(empty_rep<T>());
    std::vector<T> w; w.push_back(-INF<T>());
    for (T a : v) { if (around) w.push_back(nxt(a, -1)); w.push_back(a); if (around) w.push_back(nxt(a, 1)); }
    w.push_back(INF<T>());
    std::sort(w.begin(), w.end());
    for (size_t i = 0; i < w.size(); ++i) for (size_t j = i; j < w.size(); ++j)
        if (w[i] != INF<T>() && w[j] != -INF<T>()) g.push_back(Rep<T>(w[i], w[j]));
    return g;
}

#ifdef P14
template<typename R, typename S> void both(R const& x, S const& y) { same<R_cancel_minus>(x, y); same<R_cancel_plus>(x, y); }
template<typename T, typename R, typename S> void bothm(R const& x, S const& y) { mixed<R_cancel_minus, T>(x, y); mixed<R_cancel_plus, T>(x, y); }
template<typename T, typename T1, typename T2> void mixed_cases(Rng& r)
{
    for (int i = count(60, 4000); i > 0; --i)
    {
        auto x = rnd_iv<T1>(r, r.chance(70) ? 20 : 0, r.chance(80) ? 2 : 0); auto y = rnd_iv<T2>(r, r.chance(70) ? 20 : 0, r.chance(80) ? 2 : 0);
        if (r.chance(60)) { T2 m = std::isnan(x.first) ? 1 : (T2)x.first, w = std::isnan(x.first) ? 1 : (T2)(x.second - x.first); if (std::isfinite(m) && std::isfinite(w)) { T2 u = nxt((T2)(m + w), r.range(-2, 1)); if (std::isfinite(u)) y = mk(m, u); } }
        bothm<T>(x, y);
        if (r.chance(30)) bothm<T>(dd(r, x), dd(r, y));
    }
}
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    auto g = edge_boxes<T>(std::vector<T>{ -L::max(), -1, -L::denorm_min(), 0, L::min(), 1, 3, L::max() }, false);
    long n = 0;
    for (auto& x : g) for (auto& y : g) if (mine(n++)) { both(x, y); if (r.chance(20)) both(dd(r, x), dd(r, y)); }
    for (int i = count(3000, 100000); i > 0; --i)
    {
        auto x = rnd_iv<T>(r, r.chance(70) ? 20 : 0, r.chance(85) ? 2 : 0), y = rnd_iv<T>(r, r.chance(70) ? 20 : 0, r.chance(85) ? 2 : 0);
        switch (r.below(4))
        {
        case 0: break;
        case 1:         // widths nearly equal: y = x shifted, perturbed in the last places
        {
            T s = finite_num<T>(r, 30);
            if (std::isnan(x.first)) break;
            y = mk(nxt((T)(x.first + s), r.range(-1, 1)), nxt((T)(x.second + s), r.range(-1, 1)));
            if (!std::isfinite(y.first) || !std::isfinite(y.second)) y = x;
            break;
        }
        case 2:         // widths that need more than twice the precision to compare
        {
            T big = finite_num<T>(r, 60), d = (T)std::ldexp((T)r.range(1, 7), -r.range(40, 120));
            x = mk(-d, big); y = mk((T)0, big);
            if (r.chance(50)) std::swap(x, y);
            if (r.chance(50)) y = mk((T)(-y.first), (T)(-y.second));
            break;
        }
        default:        // extreme magnitudes
        {
            T a = nxt(L::max(), -r.below(4)), d = (T)std::ldexp((T)r.range(0, 9), L::min_exponent - L::digits + r.below(3));
            x = mk((T)(-a), r.chance(50) ? a : d); y = mk((T)(r.chance(50) ? -a : -d), nxt(L::max(), -r.below(4)));
            if (r.chance(30)) y = mk(d, (T)(d * 3));
            break;
        }
        }
        both(x, y);
        if (r.chance(15)) both(dd(r, x), dd(r, y));
    }
}
void run_property(Rng& r)
{
    cases<double>(r); cases<float>(r); cases<long double>(r);
    mixed_cases<float, double, double>(r); mixed_cases<double, float, double>(r); mixed_cases<double, double, float>(r);
    mixed_cases<float, float, double>(r); mixed_cases<float, double, float>(r); mixed_cases<double, float, float>(r);
    mixed_cases<long double, float, double>(r); mixed_cases<double, long double, float>(r); mixed_cases<float, long double, double>(r);
    mixed_cases<float, float, long double>(r); mixed_cases<long double, long double, double>(r); mixed_cases<double, long double, long double>(r);
}
#endif

#ifdef P15
template<typename T, typename T1, typename T2> void mixed_cases(Rng& r)
{
    auto g = edge_boxes<T1>(std::vector<T1>{ -2, 0, 3 }, false); auto h = edge_boxes<T2>(std::vector<T2>{ -7, 0, 1 }, false);
    long n = 0;
    for (auto& b : g) for (auto& c : h) if (mine(n++)) { pair_mixed<T>(b, c); pair_mixed<T>(dd(r, b), dd(r, c)); }
    for (int i = count(40, 4000); i > 0; --i)
    {
        auto b = rnd_iv<T1>(r, r.chance(60) ? 20 : 0); auto c = rnd_iv<T2>(r, r.chance(60) ? 20 : 0);
        pair_mixed<T>(b, c);
        pair_mixed<T>(dd(r, b), dd(r, c));
        { auto b1 = mk(class_num<T1>(r), r.chance(40) ? (T1)0 : class_num<T1>(r)); auto c1 = mk(class_num<T2>(r), class_num<T2>(r)); pair_mixed<T>(b1, c1); }
        auto bb = bad_rep<T1>(r); pair_flav<T>(bb, c); auto bc = bad_rep<T2>(r); pair_flav<T>(b, bc);
        pair_flav<T>(bad_drep<T1>(r), dd(r, c)); pair_flav<T>(dd(r, b), bad_drep<T2>(r));
        pair_mixed<T>(DRep<T1>(empty_rep<T1>(), Dec::ill), dd(r, c)); pair_mixed<T>(dd(r, b), DRep<T2>(empty_rep<T2>(), Dec::ill));
    }
}
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    auto g = edge_boxes<T>(std::vector<T>{ -L::max(), -1, -L::min(), 0, L::denorm_min(), 3, L::max() }, false);
    long n = 0;
    for (auto& b : g) for (auto& c : g) if (mine(n++)) { do_pair(b, c); do_pair(dd(r, b), dd(r, c)); }
    for (int i = count(3000, 150000); i > 0; --i)
    {
        auto b = rnd_iv<T>(r, r.chance(60) ? 20 : 0), c = rnd_iv<T>(r, r.chance(60) ? 20 : 0);
        if (r.chance(40) && !std::isnan(b.first)) b = mk(b.first < 0 ? b.first : (T)-b.first, std::fabs(b.second));
        do_pair(b, c);
        do_pair(dd(r, b), dd(r, c));
        for (int k = 0; k < 2; ++k) { quot_pair(r, b, c); do_pair(b, c); if (i % 8 == 0) do_pair(dd(r, b), dd(r, c)); }
        if (i % 16 == 0)
        {
            pair_flav<T>(bad_rep<T>(r), c); pair_flav<T>(b, bad_rep<T>(r)); pair_flav<T>(bad_drep<T>(r), dd(r, c)); pair_flav<T>(dd(r, b), bad_drep<T>(r));
        }
    }
}
void run_property(Rng& r)
{
    cases<double>(r); cases<float>(r); cases<long double>(r);
    mixed_cases<float, double, double>(r); mixed_cases<double, float, double>(r); mixed_cases<double, double, float>(r);
    mixed_cases<float, float, double>(r); mixed_cases<float, double, float>(r); mixed_cases<double, float, float>(r);
    mixed_cases<long double, float, double>(r); mixed_cases<double, long double, float>(r); mixed_cases<float, long double, double>(r);
}
#endif

#ifdef P16
static int const EXPS[] = { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, 7, -7, 8, -8, 11, -10, 17, 31, -31, 64, -64, 101, -101, 128, 1000, -999, INT_MAX, -INT_MAX, INT_MIN };
template<typename T, typename T1, typename T2> void mixed_cases(Rng& r)
{
    for (int i = count(20, 2000); i > 0; --i)
    {
        auto c = rnd_iv<T1>(r, r.chance(60) ? 12 : 0); auto x = rnd_iv<T2>(r, r.chance(60) ? 12 : 0); auto z = rnd_iv<T1>(r, r.chance(60) ? 12 : 0);
        int p = EXPS[r.below(sizeof EXPS / sizeof *EXPS)];
        mixed<R_sqr_rev, T>(c, x); mixed<R_abs_rev, T>(c, x); mixed<R_cosh_rev, T>(c, x); mixed<R_mul_rev, T>(c, x); mixed<R_mul_rev, T>(c, x, z);
        pown_rev_mixed<T>(c, x, p);
        if (r.chance(30))
        {
            mixed<R_sqr_rev, T>(c); mixed<R_abs_rev, T>(c); mixed<R_cosh_rev, T>(c); pown_rev_mixed<T>(c, p);
            auto dc = dd(r, c); auto dx = dd(r, x); auto dz = dd(r, z);
            mixed<R_sqr_rev, T>(dc); mixed<R_abs_rev, T>(dc); mixed<R_cosh_rev, T>(dc); pown_rev_mixed<T>(dc, p);
            mixed<R_sqr_rev, T>(dc, dx); mixed<R_abs_rev, T>(dc, dx); mixed<R_cosh_rev, T>(dc, dx); mixed<R_mul_rev, T>(dc, dx); mixed<R_mul_rev, T>(dc, dx, dz);
            pown_rev_mixed<T>(dc, dx, p);
        }
    }
}
template<typename T> void cases(Rng& r)
{
    typedef std::numeric_limits<T> L;
    auto ev = [&](Rep<T> const& c, Rep<T> const& x) { same<R_sqr_rev>(c, x); same<R_abs_rev>(c, x); same<R_cosh_rev>(c, x); };
    auto g = edge_boxes<T>(std::vector<T>{ -1, 0, 1, 4 });
    auto h = edge_boxes<T>(std::vector<T>{ -2, -1, 0, 1, 2 });
    long n = 0;
    for (auto& c : g)
    {
        if (mine(n++)) { same<R_sqr_rev>(c); same<R_abs_rev>(c); same<R_cosh_rev>(c); same<R_sqr_rev>(dd(r, c)); same<R_abs_rev>(dd(r, c)); same<R_cosh_rev>(dd(r, c)); for (int p : EXPS) { do_pown_rev(c, p); if (r.chance(10)) do_pown_rev(dd(r, c), p); } }
        for (auto& x : h) if (mine(n++) && r.chance(g_cfg.thorough ? 100 : 12)) { ev(c, x); int p = EXPS[r.below(sizeof EXPS / sizeof *EXPS)]; do_pown_rev(c, x, p); same<R_mul_rev>(c, x); same<R_mul_rev>(x, c, h[r.below((int)h.size())]); }
    }
    for (int i = count(1000, 30000); i > 0; --i)
    {
        auto c = rnd_iv<T>(r, r.chance(60) ? 12 : 0), x = rnd_iv<T>(r, r.chance(60) ? 8 : 0), b = rnd_iv<T>(r, r.chance(60) ? 8 : 0);
        if (r.chance(50) && !std::isnan(c.first) && c.second < 0) c = mk((T)-c.first, (T)-c.second);
        int p = r.chance(85) ? EXPS[r.below(sizeof EXPS / sizeof *EXPS)] : (r.chance(50) ? 1 : -1) * dict_int(r, 3000);
        ev(c, x); do_pown_rev(c, x, p); same<R_mul_rev>(b, c, x); same<R_mul_rev>(b, c); do_pown_rev(c, p);
        if (r.chance(25)) { same<R_sqr_rev>(dd(r, c), dd(r, x)); same<R_abs_rev>(dd(r, c), dd(r, x)); same<R_cosh_rev>(dd(r, c), dd(r, x)); do_pown_rev(dd(r, c), dd(r, x), p); same<R_mul_rev>(dd(r, b), dd(r, c), dd(r, x)); same<R_mul_rev>(dd(r, b), dd(r, c)); }
        if (r.chance(40)) { same<R_sqr_rev>(c); same<R_abs_rev>(c); same<R_cosh_rev>(c); }
        if (i % 2) { Rep<T> d, e; quot_pair(r, d, e); same<R_mul_rev>(d, e); same<R_mul_rev>(d, e, x); T w = class_num<T>(r), y = std::sqrt(std::fabs(w)); ev(mk(w, class_num<T>(r)), mk(about_num(r, y), class_num<T>(r))); do_pown_rev(mk(w, class_num<T>(r)), p); }
        // targets whose preimage just touches or just misses the constraint
        T v = (T)r.range(1, 60) / 4, u = (T)r.range(1, 60) / 4; T s = v * v;
        ev(mk(nxt(s, r.range(-1, 1)), u), mk(nxt(v, r.range(-1, 1)), (T)(v + 3)));
        ev(Rep<T>(s, s), Rep<T>(nxt(v, r.range(0, 1)), v + 5));
        T cu = v * v * v; do_pown_rev(mk(nxt(cu, r.range(-1, 1)), u), mk(nxt(v, r.range(-1, 1)), (T)-v), r.chance(50) ? 3 : -3);
        do_pown_rev(Rep<T>(cu, cu), Rep<T>(v, v), 3);
        T q = finite_num<T>(r, 10); do_pown_rev(Rep<T>(q, q), h[r.below((int)h.size())], p);
        T t = finite_num<T>(r, 4); Rep<T> im = Fl<T>::cosh(Rep<T>(t, t)); if (std::isfinite(im.second)) { same<R_cosh_rev>(im, mk(t, nxt(t, r.range(-1, 1)))); same<R_cosh_rev>(im, mk((T)-t, (T)(-t / 2))); same<R_cosh_rev>(Rep<T>(im.first, im.first)); }
        same<R_mul_rev>(mk((T)-v, u), mk(s, (T)(s + u)), mk(nxt((T)(s / u), r.range(-1, 1)), (T)-q));
        same<R_mul_rev>(Rep<T>(v, v), Rep<T>(u, u), Rep<T>(nxt((T)(u / v), r.range(-1, 1)), (T)(u / v + 2)));
    }
    (void)L::max();
}
void run_property(Rng& r)
{
    cases<double>(r); cases<float>(r); cases<long double>(r);
    mixed_cases<float, double, double>(r); mixed_cases<double, float, double>(r); mixed_cases<double, double, float>(r);
    mixed_cases<float, float, double>(r); mixed_cases<long double, float, double>(r); mixed_cases<float, double, long double>(r);
}
#endif

#ifdef P17
static const long double HP = 1.57079632679489661923132169163975144L;
template<typename T> Rep<T> rnd_c(Rng& r)
{
    T one = 1;
    switch (r.below(8))
    {
    case 0: return rnd_iv<T>(r, 4);
    case 1: { T a = (T)r.range(-16, 16) / 16; return Rep<T>(a, a); }
    case 2: return mk((T)(r.chance(50) ? -one : one), finite_num<T>(r, 4));
    case 3: return mk(nxt(r.chance(50) ? one : -one, r.range(-3, 3)), nxt(r.chance(50) ? one : -one, r.range(-3, 3)));
    case 4: { T a = (T)r.range(-16, 16) / 16; return mk(a, nxt(a, r.range(0, 3))); }
    case 5: return mk(-(T)std::ldexp(1.0L, -r.range(1, 100)), (T)std::ldexp(1.0L, -r.range(1, 100)));
    default: { T a = (T)(r.range(-1000000, 1000000) / 1e6L), b = (T)(r.range(-1000000, 1000000) / 1e6L); return mk(a, b); }
    }
}
template<typename T> T near_mult(Rng& r, int maxbits)
{
    long double k = (long double)(r.next() >> (64 - 1 - r.below(maxbits)));
    T v = (T)(k * HP);
    v = nxt(v, r.range(-3, 3));
    return r.chance(50) ? v : -v;
}
template<typename T> Rep<T> rnd_x(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return rnd_iv<T>(r);
    case 1: return rnd_iv<T>(r, 6);
    case 2: { T a = near_mult<T>(r, 5); return mk(a, near_mult<T>(r, 5)); }
    case 3: { T a = near_mult<T>(r, r.chance(50) ? 30 : 62); return mk(a, (T)(a + (T)r.range(-10, 10))); }
    case 4: { T a = (T)r.range(-400, 400) / 16; return mk(a, (T)(a + (T)r.range(0, 160) / 16)); }
    case 5: { T a = (T)r.range(-400, 400) / 16; return r.chance(50) ? Rep<T>(a, INF<T>()) : Rep<T>(-INF<T>(), a); }
    case 6: { T a = std::ldexp((T)r.range(1, 1000), r.range(0, std::numeric_limits<T>::max_exponent - 12)); if (r.chance(50)) a = -a; return mk(a, r.chance(50) ? (T)r.range(-20, 20) : (T)(a * (T)1.5)); }
    default: { T a = near_mult<T>(r, 8); return mk(a, nxt(a, r.range(0, 4))); }
    }
}
template<typename T, typename T1, typename T2> void mixed_cases(Rng& r)
{
    for (int i = count(40, 4000); i > 0; --i)
    {
        auto c = rnd_c<T1>(r); auto x = rnd_x<T2>(r);
        mixed<R_sin_rev, T>(c, x); mixed<R_cos_rev, T>(c, x); mixed<R_tan_rev, T>(c, x);
        if (r.chance(20)) { auto dc = dd(r, c); auto dx = dd(r, x); mixed<R_sin_rev, T>(dc, dx); mixed<R_cos_rev, T>(dc, dx); mixed<R_tan_rev, T>(dc, dx); mixed<R_sin_rev, T>(dc); mixed<R_cos_rev, T>(dc); mixed<R_tan_rev, T>(dc); }
        if (r.chance(20)) { mixed<R_sin_rev, T>(c); mixed<R_cos_rev, T>(c); mixed<R_tan_rev, T>(c); }
    }
}
template<typename T> void cases(Rng& r)
{
    auto all = [&](Rep<T> const& c, Rep<T> const& x) { same<R_sin_rev>(c, x); same<R_cos_rev>(c, x); same<R_tan_rev>(c, x); };
    std::vector<T> k; for (int i = -5; i <= 5; ++i) k.push_back((T)(i * HP));
    auto h = edge_boxes<T>(k);
    T cs[] = { -1, nxt((T)-1, 1), (T)-0.9, (T)-0.5, 0, (T)0.5, (T)0.8, nxt((T)1, -1), 1 };
    long n = 0;
    for (int i = 0; i < 9; ++i) for (int j = i; j < 9; ++j) for (auto& x : h) if (mine(n++) && r.chance(g_cfg.thorough ? 30 : 1)) all(Rep<T>(cs[i], cs[j]), x);
    for (int i = count(1500, 60000); i > 0; --i)
    {
        auto c = rnd_c<T>(r), x = rnd_x<T>(r);
        all(c, x);
        if (r.chance(10)) { auto dc = dd(r, c); auto dx = dd(r, x); same<R_sin_rev>(dc, dx); same<R_cos_rev>(dc, dx); same<R_tan_rev>(dc, dx); same<R_sin_rev>(dc); same<R_cos_rev>(dc); same<R_tan_rev>(dc); same<R_sin_rev>(c); same<R_cos_rev>(c); same<R_tan_rev>(c); }
        // a point and the enclosure of its image, so that exactly that point must survive
        T t = r.chance(50) ? finite_num<T>(r, 6) : near_mult<T>(r, r.chance(50) ? 6 : 40);
        Rep<T> p(t, t), w = mk(t, (T)(t + (r.chance(50) ? 0 : r.range(-2, 2))));
        same<R_sin_rev>(Fl<T>::sin(p), w); same<R_cos_rev>(Fl<T>::cos(p), w); same<R_tan_rev>(Fl<T>::tan(p), w);
    }
}
void run_property(Rng& r)
{
    cases<double>(r); cases<float>(r); cases<long double>(r);
    mixed_cases<float, double, double>(r); mixed_cases<double, float, double>(r); mixed_cases<double, double, float>(r);
    mixed_cases<float, float, double>(r); mixed_cases<long double, float, double>(r); mixed_cases<float, double, long double>(r);
}
#endif

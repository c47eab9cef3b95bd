// Relations (P08), overlap (P09), set operations (P10), numeric functions (P11); -DP08 .. -DP11.
#include "bool.hpp"
VERIF_MAIN
template<typename R> DRep<R> dd(Rng& r, Rep<R> const& x) { return DRep<R>(x, rnd_dec(r, x)); }
// the same small set of end points in every format, so that formats meet in equal and in
// neighbouring values
template<typename T> std::vector<T> points()
{
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    T a[] = { 0, 1, nxt((T)1, 1), (T)1.5, (T)0.1f, (T)0.1, (T)0.1L, (T)std::numeric_limits<float>::max(), (T)std::numeric_limits<float>::denorm_min(), L::max(), L::denorm_min() };
    for (T x : a) { if (std::isinf(x)) continue; v.push_back(x); v.push_back(-x); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template<typename T> Rep<T> grid_iv(Rng& r)
{
    static std::vector<T> p = points<T>();
    int k = r.below(20);
    if (k == 0) return empty_rep<T>();
    if (k == 1) return Rep<T>(-INF<T>(), INF<T>());
    T a = p[r.below((int)p.size())], b = p[r.below((int)p.size())];
    if (k <= 3) return Rep<T>(-INF<T>(), a);
    if (k <= 5) return Rep<T>(a, INF<T>());
    if (k <= 8) return Rep<T>(a == 0 && r.chance(50) ? (T)-0.0 : a, a);
    return mk(a, b);
}
template<typename T> std::vector<Rep<T>> small_grid()
{
    T v[] = { -INF<T>(), -1, 0, nxt((T)0, 1), 1, 2, INF<T>() };
    std::vector<Rep<T>> g; g.push_back(empty_rep<T>());
    for (int i = 0; i < 7; ++i) for (int j = i; j < 7; ++j) if (i < 6 && j > 0) g.push_back(Rep<T>(v[i], v[j]));
    return g;
}
template<typename T1, typename T2> Rep<T2> related(Rng& r, Rep<T1> const& x)
{
    if (r.chance(30) || std::isnan(x.first)) return grid_iv<T2>(r);
    T2 a = (T2)x.first, b = (T2)x.second;
    if (std::isinf(a) && a > 0) a = std::numeric_limits<T2>::max();
    if (std::isinf(b) && b < 0) b = -std::numeric_limits<T2>::max();
    switch (r.below(8))
    {
    case 0: return mk(a, b);
    case 1: return mk(nxt(a, r.range(-1, 1)), nxt(b, r.range(-1, 1)));
    case 2: if (std::isfinite(b)) return mk(b, nxt(b, r.range(0, 2))); break;
    case 3: if (std::isfinite(a)) return mk(nxt(a, -r.range(0, 2)), a); break;
    case 4: if (std::isfinite(b)) return mk(nxt(b, r.range(-1, 1)), (T2)(std::fabs(b) + 5)); break;
    case 5: if (std::isfinite(a)) return Rep<T2>(-INF<T2>(), nxt(a, r.range(-1, 1))); break;
    case 6: if (std::isfinite(b)) return Rep<T2>(nxt(b, r.range(-1, 1)), INF<T2>()); break;
    default: if (std::isfinite(a)) return mk(a, (T2)(a / 2)); break;
    }
    return grid_iv<T2>(r);
}
template<typename T> Rep<T> fixr(Rep<T> x) { if (x.first == INF<T>() || x.second == -INF<T>()) return empty_rep<T>(); return x; }

#ifdef P08
template<typename T1, typename T2> void pair_cases(Rng& r, int mul)
{
    auto g = small_grid<T1>(); auto h = small_grid<T2>();
    long n = 0;
    for (auto& x : g) for (auto& y : h) if (mine(n++) && (g_cfg.thorough || r.chance(25))) { rels(x, y); if (r.chance(10)) rels(dd(r, x), dd(r, y)); }
    for (int i = count(100 * mul, 10000 * mul); i > 0; --i)
    {
        auto x = r.chance(50) ? grid_iv<T1>(r) : rnd_iv<T1>(r); auto y = fixr(related<T1, T2>(r, x));
        rels(x, y);
        if (r.chance(25)) rels(dd(r, x), dd(r, y));
        T2 m = std::isnan(y.first) ? (T2)r.range(-2, 2) : r.chance(50) ? y.first : y.second;
        do_member(m, x); do_member(nxt(m, r.range(-2, 2)), x); do_member(r.chance(30) ? QNAN<T2>() : rnd_num<T2>(r), x); do_member(m, dd(r, x));
        if (r.chance(10)) { rels_f(bad_rep<T1>(r), y); rels_f(x, bad_rep<T2>(r)); rels_f(bad_drep<T1>(r), dd(r, y)); rels_f(dd(r, x), bad_drep<T2>(r)); do_member(m, bad_rep<T1>(r), false); do_member(m, bad_drep<T1>(r), false); }
    }
}
template<typename T> void single(Rng& r)
{
    auto one = [&](Rep<T> const& x) { pred<Q_is_empty>(x); pred<Q_is_entire>(x); pred<Q_is_common_interval>(x); pred<Q_is_singleton>(x); };
    auto two = [&](DRep<T> const& x) { pred<Q_is_empty>(x); pred<Q_is_entire>(x); pred<Q_is_common_interval>(x); pred<Q_is_singleton>(x); pred<Q_is_nai>(x); };
    long n = 0;
    for (auto& x : small_grid<T>()) if (mine(n++)) { one(x); two(dd(r, x)); two(strongest(x)); }
    for (int i = count(300, 20000); i > 0; --i) { auto x = rnd_iv<T>(r); one(x); two(dd(r, x)); }
    DRep<T> nai(empty_rep<T>(), Dec::ill); two(nai);
    for (int i = 0; i < 4; ++i) { auto b = bad_rep<T>(r); pred<Q_is_empty>(b, false); pred<Q_is_entire>(b, false); pred<Q_is_common_interval>(b, false); pred<Q_is_singleton>(b, false); auto d = bad_drep<T>(r); pred<Q_is_empty>(d, false); pred<Q_is_entire>(d, false); pred<Q_is_common_interval>(d, false); pred<Q_is_singleton>(d, false); pred<Q_is_nai>(d, false); }
}
void run_property(Rng& r)
{
    single<double>(r); single<float>(r); single<long double>(r);
    pair_cases<double, double>(r, 10); pair_cases<float, float>(r, 4); pair_cases<long double, long double>(r, 4);
    pair_cases<float, double>(r, 4); pair_cases<double, float>(r, 4); pair_cases<float, long double>(r, 4);
    pair_cases<long double, float>(r, 4); pair_cases<double, long double>(r, 4); pair_cases<long double, double>(r, 4);
}
#endif
#ifdef P09
template<typename T1, typename T2> void pair_cases(Rng& r, int mul)
{
    auto g = small_grid<T1>(); auto h = small_grid<T2>();
    long n = 0;
    for (auto& x : g) for (auto& y : h) if (mine(n++)) { do_overlap(x, y); do_overlap(dd(r, x), dd(r, y)); }
    for (int i = count(600 * mul, 40000 * mul); i > 0; --i)
    {
        auto x = r.chance(50) ? grid_iv<T1>(r) : rnd_iv<T1>(r); auto y = fixr(related<T1, T2>(r, x));
        do_overlap(x, y); do_overlap(y, x); do_overlap(dd(r, x), dd(r, y)); do_overlap(dd(r, y), dd(r, x));
        if (r.chance(5)) { do_overlap(bad_rep<T1>(r), y, false); do_overlap(x, bad_rep<T2>(r), false); do_overlap(bad_drep<T1>(r), dd(r, y), false); do_overlap(dd(r, x), bad_drep<T2>(r), false); }
    }
}
void run_property(Rng& r)
{
    pair_cases<double, double>(r, 5); pair_cases<float, float>(r, 2); pair_cases<long double, long double>(r, 2);
    pair_cases<float, double>(r, 2); pair_cases<double, float>(r, 2); pair_cases<float, long double>(r, 2);
    pair_cases<long double, float>(r, 2); pair_cases<double, long double>(r, 2); pair_cases<long double, double>(r, 2);
}
#endif
#ifdef P10
template<typename T, typename T1, typename T2> void mixed_cases(Rng& r)
{
    for (int i = count(150, 8000); i > 0; --i)
    {
        auto x = r.chance(50) ? grid_iv<T1>(r) : rnd_iv<T1>(r); auto y = fixr(related<T1, T2>(r, x));
        mixed<R_intersection, T>(x, y); mixed<R_convex_hull, T>(x, y);
        if (r.chance(30)) { auto dx = dd(r, x); auto dy = dd(r, y); mixed<R_intersection, T>(dx, dy); mixed<R_convex_hull, T>(dx, dy); }
        if (r.chance(5)) { flav<R_intersection, T>(bad_rep<T1>(r), y); flav<R_convex_hull, T>(x, bad_rep<T2>(r)); flav<R_intersection, T>(bad_drep<T1>(r), dd(r, y)); flav<R_convex_hull, T>(dd(r, x), bad_drep<T2>(r)); }
    }
}
template<typename T> void cases(Rng& r)
{
    auto g = small_grid<T>();
    long n = 0;
    for (auto& x : g) for (auto& y : g) if (mine(n++)) { same<R_intersection>(x, y); same<R_convex_hull>(x, y); auto dx = dd(r, x); auto dy = dd(r, y); same<R_intersection>(dx, dy); same<R_convex_hull>(dx, dy); }
    for (int i = count(3000, 200000); i > 0; --i)
    {
        auto x = r.chance(50) ? grid_iv<T>(r) : rnd_iv<T>(r); auto y = r.chance(70) ? fixr(related<T, T>(r, x)) : rnd_iv<T>(r);
        same<R_intersection>(x, y); same<R_convex_hull>(x, y);
        if (r.chance(30)) { auto dx = dd(r, x); auto dy = dd(r, y); same<R_intersection>(dx, dy); same<R_convex_hull>(dx, dy); }
        if (r.chance(3)) { auto b = bad_rep<T>(r); flav<R_intersection, T>(b, y); flav<R_convex_hull, T>(x, b); auto d = bad_drep<T>(r); flav<R_intersection, T>(d, dd(r, y)); flav<R_convex_hull, T>(dd(r, x), d); }
    }
}
void run_property(Rng& r)
{
    cases<double>(r); cases<float>(r); cases<long double>(r);
    mixed_cases<float, double, double>(r); mixed_cases<double, float, double>(r); mixed_cases<double, double, float>(r);
    mixed_cases<float, float, double>(r); mixed_cases<float, double, float>(r); mixed_cases<double, float, float>(r);
    mixed_cases<long double, float, double>(r); mixed_cases<double, long double, float>(r); mixed_cases<float, long double, double>(r);
    mixed_cases<float, long double, long double>(r); mixed_cases<double, double, long double>(r); mixed_cases<long double, double, long double>(r);
}
#endif
#ifdef P11
template<typename R> void nums(R const& x, bool objects = true)
{
    pred<Q_inf>(x, objects); pred<Q_sup>(x, objects); pred<Q_mid>(x, objects); pred<Q_rad>(x, objects);
    pred<Q_wid>(x, objects); pred<Q_mag>(x, objects); pred<Q_mig>(x, objects); pred<Q_mid_rad>(x, objects);
}
template<typename T, typename R> void nums_mixed(R const& x, bool objects = true)
{
    pred_mixed<Q_inf, T>(x, objects); pred_mixed<Q_sup, T>(x, objects); pred_mixed<Q_mid, T>(x, objects); pred_mixed<Q_rad, T>(x, objects);
    pred_mixed<Q_wid, T>(x, objects); pred_mixed<Q_mag, T>(x, objects); pred_mixed<Q_mig, T>(x, objects); pred_mixed<Q_mid_rad, T>(x, objects);
}
template<typename T> Rep<T> num_iv(Rng& r)
{
    typedef std::numeric_limits<T> L;
    switch (r.below(9))
    {
    case 8: { int sel = r.below(6); return mk(edge_num<T>(r, sel), edge_num<T>(r, sel)); }
    case 0: { T a = nxt(L::max(), -r.below(5)); T b = nxt(L::max(), -r.below(5)); return mk(r.chance(50) ? a : -a, r.chance(70) ? b : -b); }
    case 1: { T a = (T)r.range(-9, 9) * L::denorm_min(); return mk(a, (T)(a + r.range(0, 9) * L::denorm_min())); }
    case 2: { T a = finite_num<T>(r, 40); return mk(a, nxt(a, r.range(0, 5))); }
    case 3: { T a = nxt((T)std::ldexp((T)1, r.range(-4, 4)), r.range(-3, 3)), b = nxt((T)std::ldexp((T)1, r.range(-70, 70)), r.range(-3, 3)); return mk(r.chance(50) ? a : -a, b); }
    case 4: { T a = finite_num<T>(r, 60), b = finite_num<T>(r, 60); return mk(a, b); }
    case 5: { T a = r.chance(50) ? (T)0 : (T)-0.0; T b = finite_num<T>(r); return b < 0 ? Rep<T>(b, a) : Rep<T>(a, b); }
    case 6: { T a = (T)(L::max() / 2); a = nxt(a, r.range(-3, 3)); T b = nxt(L::max(), -r.below(4)); return mk(r.chance(50) ? a : -a, b); }
    default: return rnd_iv<T>(r);
    }
}
template<typename T> void cases(Rng& r)
{
    long n = 0;
    for (auto& x : small_grid<T>()) if (mine(n++)) { nums(x); nums(dd(r, x)); }
    nums(DRep<T>(empty_rep<T>(), Dec::ill));
    for (int i = count(1500, 100000); i > 0; --i)
    {
        auto x = num_iv<T>(r);
        nums(x);
        if (r.chance(25)) nums(dd(r, x));
        if (r.chance(2)) { nums(bad_rep<T>(r), false); nums(bad_drep<T>(r), false); }
    }
}
template<typename T, typename T1> void mixed_cases(Rng& r)
{
    for (int i = count(500, 30000); i > 0; --i)
    {
        auto x = num_iv<T1>(r);
        nums_mixed<T>(x);
        if (r.chance(25)) nums_mixed<T>(dd(r, x));
        if (r.chance(2)) { nums_mixed<T>(bad_rep<T1>(r), false); nums_mixed<T>(bad_drep<T1>(r), false); nums_mixed<T>(DRep<T1>(empty_rep<T1>(), Dec::ill)); }
    }
}
void run_property(Rng& r)
{
    cases<double>(r); cases<float>(r); cases<long double>(r);
    mixed_cases<float, double>(r); mixed_cases<double, float>(r); mixed_cases<float, long double>(r);
    mixed_cases<long double, float>(r); mixed_cases<double, long double>(r); mixed_cases<long double, double>(r);
}
#endif

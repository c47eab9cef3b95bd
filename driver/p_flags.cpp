// Exception flags (P23): every operation with valid, empty, not-an-interval and invalid
// operands in every position, under any flags already raised and any control word.
// -DPART selects the formats: T of the result, A and B of the arguments.
#include "bool.hpp"
#include "literals.hpp"
#include "littokens.hpp"
VERIF_MAIN
typedef float f; typedef double d; typedef long double l;
#if PART == 0
typedef d T; typedef d A; typedef d B;
#elif PART == 1
typedef f T; typedef f A; typedef f B;
#elif PART == 2
typedef l T; typedef l A; typedef l B;
#elif PART == 3
typedef d T; typedef f A; typedef l B;
#elif PART == 4
typedef f T; typedef d A; typedef f B;
#elif PART == 5
typedef l T; typedef d A; typedef f B;
#elif PART == 6
typedef d T; typedef d A; typedef f B;
#else
typedef f T; typedef l A; typedef d B;
#endif
static Rng* R;
static void env()
{
    g_pre = R->chance(40) ? 0 : R->below(16);
    g_cwd = R->chance(60) ? 0 : R->chance(50) ? 1 << R->below(4) : R->below(16);
}
// operand classes: 0 plain, 1 special (unbounded, zero, point), 2 empty, 3 invalid (bare) / NaI (decorated), 4 invalid
template<typename N> Rep<N> spec(Rng& r)
{
    switch (r.below(6))
    {
    case 0: return Rep<N>(-INF<N>(), INF<N>());
    case 1: return Rep<N>((N)0, (N)0);
    case 2: return Rep<N>((N)r.range(-3, 3), INF<N>());
    case 3: return Rep<N>(-INF<N>(), (N)r.range(-3, 3));
    case 4: { N a = (N)r.range(-3, 3); return Rep<N>(a, a); }
    default: return Rep<N>((N)-1, (N)1);
    }
}
template<typename N> Rep<N> pick(Rng& r, int c, Rep<N>*)
{
    switch (c)
    {
    case 0: return mk((N)r.range(-40, 40) / 8, (N)r.range(-40, 40) / 8);
    case 1: return spec<N>(r);
    case 2: return empty_rep<N>();
    default: return bad_rep<N>(r);
    }
}
template<typename N> DRep<N> pick(Rng& r, int c, DRep<N>*)
{
    if (c == 3) return DRep<N>(empty_rep<N>(), Dec::ill);
    if (c == 4) return bad_drep<N>(r);
    Rep<N> x = pick(r, c, (Rep<N>*)0);
    return DRep<N>(x, c == 2 ? Dec::trv : rnd_dec(r, x) == Dec::ill ? Dec::trv : rnd_dec(r, x));
}
template<typename X> X P(int c) { X x = pick(*R, c, (X*)0); return x; }
template<typename N> DRep<N> fix(DRep<N> x) { if (std::isnan(x.first.first) && std::isnan(x.first.second) && x.second != Dec::ill) x.second = Dec::trv; return x; }
static bool bad(int k, int c) { return k == 0 ? c >= 3 : c == 4; }
static int classes(int k) { return k == 0 ? 4 : 5; }

template<typename Op, typename X> void one(int c)
{
    const int k = Kind<X>::k;
    env(); X x = P<X>(c);
    if (bad(k, c)) flav<Op, T>(x); else mixed<Op, T>(x);
}
template<typename Op, typename X, typename Y> void two(int c, int e)
{
    const int k = Kind<X>::k;
    env(); X x = P<X>(c); Y y = P<Y>(e);
    if (bad(k, c) || bad(k, e)) flav<Op, T>(x, y); else mixed<Op, T>(x, y);
}
template<typename Op, typename X, typename Y, typename Z> void three(int c, int e, int g)
{
    const int k = Kind<X>::k;
    env(); X x = P<X>(c); Y y = P<Y>(e); Z z = P<Z>(g);
    if (bad(k, c) || bad(k, e) || bad(k, g)) flav<Op, T>(x, y, z); else mixed<Op, T>(x, y, z);
}
struct V_fma { static char const* spec() { return "fma"; }
    template<typename U, typename... X> static auto flavor(X const&... x) -> decltype(Fl<U>::fma(x...)) { return Fl<U>::fma(x...); }
    template<typename C, typename... X> static C cls(X const&... x) { return C::fma(x...); } };
template<typename X, typename Y> void unary(int c)
{
    one<U_pos, X>(c); one<U_neg, X>(c); one<U_recip, X>(c); one<U_sqr, X>(c); one<U_sqrt, X>(c); one<U_exp, X>(c); one<U_exp2, X>(c); one<U_exp10, X>(c);
    one<U_log, X>(c); one<U_log2, X>(c); one<U_log10, X>(c); one<U_sin, X>(c); one<U_cos, X>(c); one<U_tan, X>(c); one<U_asin, X>(c); one<U_acos, X>(c);
    one<U_atan, X>(c); one<U_sinh, X>(c); one<U_cosh, X>(c); one<U_tanh, X>(c); one<U_asinh, X>(c); one<U_acosh, X>(c); one<U_atanh, X>(c);
    one<U_sign, X>(c); one<U_ceil, X>(c); one<U_floor, X>(c); one<U_trunc, X>(c); one<U_round_ties_to_even, X>(c); one<U_round_ties_to_away, X>(c); one<U_abs, X>(c);
    one<R_sqr_rev, X>(c); one<R_abs_rev, X>(c); one<R_cosh_rev, X>(c); one<R_sin_rev, X>(c); one<R_cos_rev, X>(c); one<R_tan_rev, X>(c);
    const int k = Kind<X>::k; typedef typename ObjT<T, k>::type C;
    for (int n : { 0, 1, 2, -1, 3, -2 })
    {
        env(); X x = P<X>(c);
        Routes q, p;
        q.call('f', [&] { return enc(Fl<T>::pown(x, n)); });
        if (!bad(k, c)) q.call('s', [&] { return enc(C::pown(obj(x), n)); });
        q.emit("pown", k, Tags<T>::c, fm<X>(), enc(x), n);
        env();
        p.call('f', [&] { return enc(Fl<T>::pown_rev(x, n)); });
        if (!bad(k, c)) p.call('s', [&] { return enc(C::pown_rev(obj(x), n)); });
        p.emit("pown_rev", k, Tags<T>::c, fm<X>(), enc(x), n);
    }
    X x = P<X>(c); bool ok = !bad(k, c);
    env(); pred_mixed<Q_inf, T>(x, ok); env(); pred_mixed<Q_sup, T>(x, ok); env(); pred_mixed<Q_mid, T>(x, ok); env(); pred_mixed<Q_rad, T>(x, ok);
    env(); pred_mixed<Q_wid, T>(x, ok); env(); pred_mixed<Q_mag, T>(x, ok); env(); pred_mixed<Q_mig, T>(x, ok); env(); pred_mixed<Q_mid_rad, T>(x, ok);
    env(); pred<Q_is_empty>(x, ok); env(); pred<Q_is_entire>(x, ok); env(); pred<Q_is_common_interval>(x, ok); env(); pred<Q_is_singleton>(x, ok);
    env(); do_member((B)R->range(-3, 3), x, ok); env(); do_member(R->chance(50) ? QNAN<B>() : INF<B>(), x, ok);
    env(); { Routes q; q.call('f', [&] { return enc(Fl<NumT<X>>::is_valid(x)); }); q.emit("is_valid", k, Tags<NumT<X>>::c, fm<X>(), enc(x)); }
}
template<typename X, typename Y> void binary(int c, int e)
{
    two<B_add, X, Y>(c, e); two<B_sub, X, Y>(c, e); two<B_mul, X, Y>(c, e); two<B_div, X, Y>(c, e); two<B_pow, X, Y>(c, e); two<B_atan2, X, Y>(c, e);
    two<B_min, X, Y>(c, e); two<B_max, X, Y>(c, e); two<B_intersection, X, Y>(c, e); two<B_convex_hull, X, Y>(c, e); two<B_cancel_plus, X, Y>(c, e); two<B_cancel_minus, X, Y>(c, e);
    two<R_sqr_rev, X, Y>(c, e); two<R_abs_rev, X, Y>(c, e); two<R_cosh_rev, X, Y>(c, e); two<R_sin_rev, X, Y>(c, e); two<R_cos_rev, X, Y>(c, e); two<R_tan_rev, X, Y>(c, e);
    two<R_mul_rev, X, Y>(c, e);
    const int k = Kind<X>::k; typedef typename ObjT<T, k>::type C; bool ok = !bad(k, c) && !bad(k, e);
    {
        env(); X x = P<X>(c); Y y = P<Y>(e); int n = R->range(-3, 3);
        Routes q, p;
        q.call('f', [&] { return enc(Fl<T>::pown_rev(x, y, n)); });
        if (ok) q.call('s', [&] { return enc(C::pown_rev(obj(x), obj(y), n)); });
        q.emit("pown_rev", k, Tags<T>::c, fml<X, Y>(), encl(x, y), n);
        env();
        p.call('f', [&] { return enc2(Fl<T>::mul_rev_to_pair(x, y)); });
        if (ok) p.call('s', [&] { return enc2(C::mul_rev_to_pair(obj(x), obj(y))); });
        p.emit("mul_rev_to_pair", k, Tags<T>::c, fml<X, Y>(), encl(x, y));
    }
    X x = P<X>(c); Y y = P<Y>(e); env();
    if (ok) { rels(x, y); env(); do_overlap(x, y); } else { rels_f(x, y); env(); do_overlap(x, y, false); }
}
template<typename X, typename Y> void ternary(int c, int e, int g) { three<V_fma, X, Y, X>(c, e, g); three<R_mul_rev, X, Y, X>(c, e, g); }
static void decorated_only(int c)
{
    typedef DRep<A> X;
    X x = P<X>(c); bool ok = c != 4;
    env(); pred<Q_is_nai>(x, ok);
    Routes u, v;
    env();
    u.call('f', [&] { return enc(Fl<T>::interval_part(x)); }); if (ok) u.call('c', [&] { DI<A> o; rep(o) = x; return enc(I<T>(o)); });
    u.emit("interval_part", 0, Tags<T>::c, fm<X>(), enc(x));
    env();
    v.call('f', [&] { return enc((int)Fl<A>::decoration_part(x)); }); if (ok) v.call('s', [&] { return enc((int)DI<A>::decoration(obj(x))); });
    v.emit("decoration", 1, Tags<A>::c, fm<X>(), enc(x));
}
static void bare_only(int c)
{
    typedef Rep<A> X;
    X x = P<X>(c); bool ok = c < 3;
    static Dec const ds[] = { Dec::ill, Dec::trv, Dec::def, Dec::dac, Dec::com, (Dec)3, (Dec)5, (Dec)17, (Dec)255 };
    Dec dc = ds[R->below(9)];
    Routes s, t;
    env();
    s.call('f', [&] { return enc(Fl<T>::new_dec(x)); }); if (ok) s.call('c', [&] { return enc(DI<T>(obj(x))); });
    s.emit("new_dec", 1, Tags<T>::c, fm<X>(), enc(x));
    env();
    t.call('f', [&] { return enc(Fl<T>::set_dec(x, dc)); }); if (ok) t.call('c', [&] { return enc(DI<T>(obj(x), dc)); });
    t.emit("set_dec", 1, Tags<T>::c, fm<X>(), enc(x), (int)dc);
}
static void numbers()
{
    static const A v[] = { -INF<A>(), -1, 0, 1, 2, INF<A>(), QNAN<A>() };
    static Dec const ds[] = { Dec::ill, Dec::trv, Dec::def, Dec::dac, Dec::com, (Dec)3, (Dec)17 };
    A a = v[R->below(7)]; B b = (B)v[R->below(7)]; Dec c = ds[R->below(7)];
    std::string fm = std::string(1, Tags<A>::c) + Tags<B>::c, x = enc(a) + "," + enc(b);
    Routes q, p, s; env();
    q.call('f', [&] { return enc(Fl<T>::nums_to_interval(a, b)); }); q.call('c', [&] { return enc(I<T>(a, b)); });
    q.emit("nums", 0, Tags<T>::c, fm, x); env();
    p.call('f', [&] { return enc(Fl<T>::nums_to_decorated_interval(a, b)); }); p.call('c', [&] { return enc(DI<T>(a, b)); });
    p.emit("nums", 1, Tags<T>::c, fm, x); env();
    s.call('f', [&] { return enc(Fl<T>::nums_dec_to_decorated_interval(a, b, c)); }); s.call('c', [&] { return enc(DI<T>(a, b, c)); });
    s.emit("nums_dec", 1, Tags<T>::c, fm, x, (int)c);
}
template<typename X> void conv(int c)
{
    const int k = Kind<X>::k; X x = P<X>(c);
    Routes q; env();
    q.call('f', [&] { return enc(Fl<T>::convert_type(x)); });
    if (!bad(k, c)) q.call('c', [&] { return enc(typename ObjT<T, k>::type(ob(x))); });
    q.emit("convert", k, Tags<T>::c, fm<X>(), enc(x));
}
static void text(std::string const& t)
{
    Routes a, b; std::string x = ",\"txt\":" + encs(t);
    env();
    a.call('f', [&] { return enc(Fl<T>::text_to_interval(t)); }); a.call('c', [&] { return enc(I<T>(t)); });
    a.emit("text", 0, Tags<T>::c, "", "", 0, x); env();
    b.call('f', [&] { return enc(Fl<T>::text_to_decorated_interval(t)); }); b.call('c', [&] { return enc(DI<T>(t)); });
    b.emit("text", 1, Tags<T>::c, "", "", 0, x);
}
// heads of literals followed by up to n tokens
static void texts(LitGroup const& g, std::string const& t, int n)
{
    if (g_cfg.thorough || R->chance(n == 2 ? 100 : n == 1 ? 35 : 8)) text(t);
    if (n > 0) for (auto& w : g.tokens) texts(g, t + w, n - 1);
}
void run_property(Rng& r)
{
    R = &r;
    Lits lits(r);
    for (auto& g : lit_groups) for (auto& h : g.heads) texts(g, h, 2);
    for (auto t : { "[empty]", "[EMPTY] ", " [ empty ]\t", "[entire]", "[nai]", "[NaI]\n", "[1,2]", "3.5?", "[ ]", "[,]" })
        for (auto e : { "", " ", "]", "x", "[", " x", "_trv", "_com", "_ill", "_", "1", ",", "?" }) text(std::string(t) + e);
    for (int i = count(150, 4000); i > 0; --i) text(lits.text());
    if (g_cfg.thorough || PART < 3) for (int i = count(100, 2000); i > 0; --i) text(lits.literal());
    long n = 0;
    for (int rep = g_cfg.thorough ? 60 : 1; rep > 0; --rep)
        for (int i = 0; i < (g_cfg.thorough ? 1 : 2); ++i)
        {
            for (int c = 0; c < 5; ++c)
            {
                if (c < 4 && mine(n++)) { unary<Rep<A>, Rep<B>>(c); bare_only(c); conv<Rep<A>>(c); conv<Rep<B>>(c); }
                if (mine(n++)) { unary<DRep<A>, DRep<B>>(c); decorated_only(c); conv<DRep<A>>(c); conv<DRep<B>>(c); for (int j = 0; j < 12; ++j) numbers(); }
                for (int e = 0; e < 5; ++e)
                {
                    if (c < 4 && e < 4 && mine(n++)) binary<Rep<A>, Rep<B>>(c, e);
                    if (mine(n++)) binary<DRep<A>, DRep<B>>(c, e);
                    for (int g = 0; g < 5; ++g)
                    {
                        if (c < 4 && e < 4 && g < 4 && mine(n++)) ternary<Rep<A>, Rep<B>>(c, e, g);
                        if (mine(n++)) ternary<DRep<A>, DRep<B>>(c, e, g);
                    }
                }
            }
        }
}

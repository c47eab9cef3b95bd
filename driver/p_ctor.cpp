// Construction (P12): every constructor and its flavor function, all formats; with flags.
#include "rev.hpp"
VERIF_MAIN
typedef float f; typedef double d; typedef long double l;
static Dec const DECS[] = { Dec::ill, Dec::trv, Dec::def, Dec::dac, Dec::com };
static Dec any_dec(Rng& r, bool bad) { return bad && r.chance(12) ? (Dec)(r.chance(50) ? 2 : r.chance(50) ? 17 : 255) : DECS[r.below(5)]; }
template<typename T> T bound(Rng& r)
{
    typedef std::numeric_limits<float> F; typedef std::numeric_limits<double> D;
    switch (r.below(9))
    {
    case 8: return edge_num<T>(r);
    case 0: return r.chance(50) ? INF<T>() : -INF<T>();
    case 1: if (r.chance(40)) return QNAN<T>(); return r.chance(50) ? (T)0 : (T)-0.0;
    case 2: return (T)r.range(-3, 3);
    case 3: { long double a[] = { F::max(), F::min(), F::denorm_min(), D::max(), D::min(), D::denorm_min(), 0.1f, 0.1, 0.1L };
              long double v = a[r.below(9)]; if (r.chance(50)) v = std::nextafter(v, r.chance(50) ? 0.0L : 1e4900L); if (r.chance(50)) v = -v;
              return nxt((T)v, r.range(-1, 1)); }
    case 4: return (T)(std::numeric_limits<T>::max() * (r.chance(50) ? 1 : -1));
    default: return finite_num<T>(r, r.chance(50) ? 20 : 0);
    }
}
template<typename Lo, typename Up> std::string two(Lo a, Up b) { return enc(a) + "," + enc(b); }
template<typename Lo, typename Up> std::string fm2() { return std::string(1, Tags<Lo>::c) + Tags<Up>::c; }
template<typename T> void nums_same(Rng& r, T a, T b)
{
    Routes q, p, s; Dec c = any_dec(r, true);
    q.call('f', [&] { return enc(Fl<T>::nums_to_interval(a, b)); });
    q.call('c', [&] { return enc(I<T>(a, b)); });
    q.emit("nums", 0, Tags<T>::c, fm2<T, T>(), two(a, b));
    p.call('f', [&] { return enc(Fl<T>::nums_to_decorated_interval(a, b)); });
    p.call('c', [&] { return enc(DI<T>(a, b)); });
    p.emit("nums", 1, Tags<T>::c, fm2<T, T>(), two(a, b));
    s.call('f', [&] { return enc(Fl<T>::nums_dec_to_decorated_interval(a, b, c)); });
    s.call('c', [&] { return enc(DI<T>(a, b, c)); });
    s.emit("nums_dec", 1, Tags<T>::c, fm2<T, T>(), two(a, b), (int)c);
}
template<typename T, typename Lo, typename Up> void nums_mixed(Rng& r, Lo a, Up b)
{
    Routes q, p, s; Dec c = any_dec(r, true);
    q.call('f', [&] { return enc(Fl<T>::nums_to_interval(a, b)); });
    q.call('c', [&] { return enc(I<T>(a, b)); });
    q.emit("nums", 0, Tags<T>::c, fm2<Lo, Up>(), two(a, b));
    p.call('f', [&] { return enc(Fl<T>::nums_to_decorated_interval(a, b)); });
    p.call('c', [&] { return enc(DI<T>(a, b)); });
    p.emit("nums", 1, Tags<T>::c, fm2<Lo, Up>(), two(a, b));
    s.call('f', [&] { return enc(Fl<T>::nums_dec_to_decorated_interval(a, b, c)); });
    s.call('c', [&] { return enc(DI<T>(a, b, c)); });
    s.emit("nums_dec", 1, Tags<T>::c, fm2<Lo, Up>(), two(a, b), (int)c);
}
// conversions of objects, T from A
template<typename T, typename A> void objects(Rng& r, Rep<A> const& x, DRep<A> const& y)
{
    Routes q, p, s, t, u; Dec c = any_dec(r, true);
    I<A> X = obj(x); DI<A> Y = obj(y);
    q.call('f', [&] { return enc(Fl<T>::convert_type(x)); });
    q.call('c', [&] { return enc(I<T>(X)); });
    q.emit("convert", 0, Tags<T>::c, fm<Rep<A>>(), enc(x));
    p.call('f', [&] { return enc(Fl<T>::convert_type(y)); });
    p.call('c', [&] { return enc(DI<T>(Y)); });
    p.emit("convert", 1, Tags<T>::c, fm<DRep<A>>(), enc(y));
    s.call('f', [&] { return enc(Fl<T>::new_dec(x)); });
    s.call('c', [&] { return enc(DI<T>(X)); });
    s.emit("new_dec", 1, Tags<T>::c, fm<Rep<A>>(), enc(x));
    t.call('f', [&] { return enc(Fl<T>::set_dec(x, c)); });
    t.call('c', [&] { return enc(DI<T>(X, c)); });
    t.emit("set_dec", 1, Tags<T>::c, fm<Rep<A>>(), enc(x), (int)c);
    u.call('f', [&] { return enc(Fl<T>::interval_part(y)); });
    u.call('c', [&] { return enc(I<T>(Y)); });
    u.emit("interval_part", 0, Tags<T>::c, fm<DRep<A>>(), enc(y));
}
template<typename T> void copies(Rep<T> const& x, DRep<T> const& y)
{
    Routes q, p, s;
    I<T> X = obj(x); DI<T> Y = obj(y);
    q.call('f', [&] { return enc(Fl<T>::copy(x)); });
    q.call('c', [&] { I<T> Z(X); return enc(Z); });
    q.call('a', [&] { I<T> Z; Z = X; return enc(Z); });
    q.emit("convert", 0, Tags<T>::c, fm<Rep<T>>(), enc(x));
    p.call('f', [&] { return enc(Fl<T>::copy(y)); });
    p.call('c', [&] { DI<T> Z(Y); return enc(Z); });
    p.call('a', [&] { DI<T> Z; Z = Y; return enc(Z); });
    p.emit("convert", 1, Tags<T>::c, fm<DRep<T>>(), enc(y));
    s.call('f', [&] { return enc((int)Fl<T>::decoration_part(y)); });
    s.call('c', [&] { return enc((int)DI<T>::decoration(Y)); });
    s.call('g', [&] { return enc((int)decoration(Y)); });
    s.emit("decoration", 1, Tags<T>::c, fm<DRep<T>>(), enc(y));
}
// invalid stored representations: flavor functions only (objects are checked when copied)
template<typename T, typename A> void invalid(Rng& r)
{
    Rep<A> x = bad_rep<A>(r); DRep<A> y = bad_drep<A>(r);
    Routes q, p, s, t, u, v; Dec c = any_dec(r, true);
    q.call('f', [&] { return enc(Fl<T>::convert_type(x)); }); q.emit("convert", 0, Tags<T>::c, fm<Rep<A>>(), enc(x));
    p.call('f', [&] { return enc(Fl<T>::convert_type(y)); }); p.emit("convert", 1, Tags<T>::c, fm<DRep<A>>(), enc(y));
    s.call('f', [&] { return enc(Fl<T>::new_dec(x)); }); s.emit("new_dec", 1, Tags<T>::c, fm<Rep<A>>(), enc(x));
    t.call('f', [&] { return enc(Fl<T>::set_dec(x, c)); }); t.emit("set_dec", 1, Tags<T>::c, fm<Rep<A>>(), enc(x), (int)c);
    u.call('f', [&] { return enc(Fl<T>::interval_part(y)); }); u.emit("interval_part", 0, Tags<T>::c, fm<DRep<A>>(), enc(y));
    v.call('f', [&] { return enc((int)Fl<A>::decoration_part(y)); }); v.emit("decoration", 1, Tags<A>::c, fm<DRep<A>>(), enc(y));
}
template<typename T> void consts()
{
    Routes a, b, c, e, g;
    a.call('f', [&] { return enc(Fl<T>::empty()); }); a.call('c', [&] { return enc(I<T>::empty()); }); a.call('d', [&] { return enc(I<T>()); });
    a.emit("empty", 0, Tags<T>::c, "", "");
    b.call('f', [&] { return enc(Fl<T>::empty_dec()); }); b.call('c', [&] { return enc(DI<T>::empty()); }); b.call('d', [&] { return enc(DI<T>()); });
    b.emit("empty", 1, Tags<T>::c, "", "");
    c.call('f', [&] { return enc(Fl<T>::entire()); }); c.call('c', [&] { return enc(I<T>::entire()); });
    c.emit("entire", 0, Tags<T>::c, "", "");
    e.call('f', [&] { return enc(Fl<T>::entire_dec()); }); e.call('c', [&] { return enc(DI<T>::entire()); });
    e.emit("entire", 1, Tags<T>::c, "", "");
    g.call('f', [&] { return enc(Fl<T>::nai()); }); g.call('c', [&] { return enc(DI<T>::nai()); });
    g.emit("nai", 1, Tags<T>::c, "", "");
}
template<typename A> DRep<A> anyd(Rng& r, Rep<A> const& x) { return r.chance(8) ? DRep<A>(empty_rep<A>(), Dec::ill) : DRep<A>(x, rnd_dec(r, x)); }
template<typename A> Rep<A> giv(Rng& r)
{
    if (r.chance(30)) { int sel = r.below(6); return mk(edge_num<A>(r, sel), edge_num<A>(r, sel)); }
    A a = bound<A>(r), b = r.chance(30) ? a : bound<A>(r);
    if (std::isnan(a) || std::isnan(b)) return empty_rep<A>();
    if (a > b) std::swap(a, b);
    if (a == INF<A>() || b == -INF<A>()) return empty_rep<A>();
    return Rep<A>(a, b);
}
template<typename T, typename A> void from(Rng& r) { auto x = giv<A>(r); objects<T, A>(r, x, anyd(r, x)); if (r.chance(20)) invalid<T, A>(r); }
template<typename T> void cases(Rng& r)
{
    if (mine(1)) consts<T>();
    std::vector<T> v{ -INF<T>(), -std::numeric_limits<T>::max(), -1, (T)-0.0, 0, std::numeric_limits<T>::denorm_min(), 1, nxt((T)1, 1), std::numeric_limits<T>::max(), INF<T>(), QNAN<T>() };
    long n = 0;
    for (T a : v) for (T b : v) for (Dec c : DECS) if (mine(n++))
    {
        Routes s;
        s.call('f', [&] { return enc(Fl<T>::nums_dec_to_decorated_interval(a, b, c)); });
        s.call('c', [&] { return enc(DI<T>(a, b, c)); });
        s.emit("nums_dec", 1, Tags<T>::c, fm2<T, T>(), two(a, b), (int)c);
        nums_same(r, a, b);
    }
    for (int i = count(1200, 100000); i > 0; --i)
    {
        T a = bound<T>(r), b = r.chance(25) ? nxt(a, r.range(-2, 2)) : bound<T>(r);
        nums_same<T>(r, a, b); if (a > b && r.chance(60)) nums_same<T>(r, b, a);
        auto x = giv<T>(r); auto y = anyd(r, x);
        copies<T>(x, y); objects<T, T>(r, x, y);
        if (r.chance(15)) invalid<T, T>(r);
    }
}
template<typename T, typename Lo, typename Up> void mix(Rng& r)
{
    for (int i = count(220, 20000); i > 0; --i)
    {
        Lo a = bound<Lo>(r); Up b = bound<Up>(r);
        if (r.chance(10)) { int sel = r.below(6); a = edge_num<Lo>(r, sel); b = edge_num<Up>(r, sel); }
        if (r.chance(30)) { b = (Up)a; b = nxt(b, r.range(-1, 1)); }
        if (a > b && r.chance(70)) { Lo t = (Lo)b; b = (Up)a; a = t; }
        nums_mixed<T, Lo, Up>(r, a, b);
    }
}
void run_property(Rng& r)
{
    cases<d>(r); cases<f>(r); cases<l>(r);
    mix<d, f, f>(r); mix<d, d, f>(r); mix<d, f, d>(r); mix<d, l, l>(r); mix<d, l, f>(r); mix<d, d, l>(r);
    mix<f, d, d>(r); mix<f, f, d>(r); mix<f, d, f>(r); mix<f, l, l>(r); mix<f, l, d>(r); mix<f, f, l>(r);
    mix<l, d, d>(r); mix<l, f, d>(r); mix<l, l, f>(r);
    for (int i = count(900, 30000); i > 0; --i)
    {
        from<d, f>(r); from<f, d>(r); from<f, l>(r); from<l, f>(r); from<d, l>(r); from<l, d>(r);
    }
}

// Text output (P20): what is written contains the interval and can be read back.
#include "settings.hpp"
VERIF_MAIN
// the other settings of the stream, which are not to matter: number formats, field width with blanks
static void surround(std::ostream& os, Rng& r)
{
    if (r.chance(60)) return;
    if (r.chance(50)) { if (r.chance(50)) os << std::hex; else os << std::oct; }
    if (r.chance(40)) os << std::showbase;
    if (r.chance(30)) os << std::showpos << std::showpoint;
    if (r.chance(30)) os << std::uppercase << std::boolalpha;
    if (r.chance(30)) { if (r.chance(50)) os << std::fixed; else os << std::scientific; }
    if (r.chance(30)) os << std::setprecision(r.range(0, 30));
    if (r.chance(30)) os << std::unitbuf;
    switch (r.below(4)) { case 0: os << std::left; break; case 1: os << std::internal; break; case 2: os << std::right; }
    if (r.chance(60)) os << std::setw(r.range(0, r.chance(70) ? 40 : 150));
}
template<typename T, typename X> void print(Rng& r, Sett const& s, X const& rp, int k)
{
    std::ostringstream os;
    if (r.chance(50)) { set_all(os, s, r); surround(os, r); } else { surround(os, r); set_all(os, s, r); }
    std::string txt; Routes q;
    auto o = obj(rp);
    q.call('o', [&] {
        os << o; txt = os.str();
        auto y = decltype(o)(); bool ok = false;
        if (r.chance(50)) { std::istringstream is(txt); is >> y; ok = !is.fail(); if (ok) { is >> std::ws; ok = is.eof(); } }
        else
        {   // by construction from the text
            ex::clear(); y = decltype(o)(txt); ok = !ex::undefined_operation();
        }
        ex::clear();
        return "[" + enc(ok) + "," + enc(y) + "]"; });
    q.emit("print", k, Tags<T>::c, "", enc(rp), 0, ",\"st\":" + s.json() + ",\"txt\":" + encs(txt));
}
template<typename T> Rep<T> value(Rng& r)
{
    int k = r.below(20);
    if (k < 6) return rnd_iv<T>(r, r.chance(70) ? 20 : 100);
    if (k < 9) return rnd_iv<T>(r);
    if (k < 12)
    {   // near short decimals
        static long double const p10[] = { 1, 10, 100, 1000, 1e4L, 1e5L, 1e6L, 1e7L, 1e10L, 1e15L, 1e16L, 1e17L, 1e18L, 1e19L, 1e20L, 1e25L };
        long double b = p10[r.below(16)];
        T a = (T)(r.chance(50) ? r.range(-999, 999) / b : r.range(-99, 99) * b), c = nxt(a, r.range(0, 3));
        a = nxt(a, r.range(-3, 0));
        return std::isfinite(a) && std::isfinite(c) ? Rep<T>(a, c) : Rep<T>(1, 2);
    }
    if (k < 15)
    {   // near powers of ten, carries
        long double b = std::pow(10.0L, (long double)r.range(-20, 20)) * (r.chance(50) ? 1 : r.range(1, 9));
        T a = (T)b, c = nxt(a, r.range(0, 2)); a = nxt(a, r.range(-2, 0)); T z = (T)(b / 10);
        if (r.chance(40)) { a = -c; c = r.chance(50) ? (T)-z : z; }
        else if (r.chance(30)) a = z;
        return a <= c ? Rep<T>(a, c) : Rep<T>(c, a);
    }
    if (k < 17)
    {   // far apart bounds
        T a = finite_num<T>(r), c = finite_num<T>(r, 10);
        return mk(a, c);
    }
    if (k == 17) return Rep<T>(-std::numeric_limits<T>::max(), r.chance(50) ? std::numeric_limits<T>::max() : 0);
    if (k == 18) return Rep<T>(r.chance(50) ? -std::numeric_limits<T>::denorm_min() : (T)0, std::numeric_limits<T>::denorm_min() * r.range(0, 3));
    return r.chance(50) ? empty_rep<T>() : Rep<T>(-INF<T>(), INF<T>());
}
template<typename T> void one(Rng& r, Sett const& s)
{
    Rep<T> x = value<T>(r);
    if (r.chance(50)) print<T>(r, s, x, 0);
    else print<T>(r, s, DRep<T>(x, rnd_dec(r, x)), 1);
}
void run_property(Rng& r)
{
    long i = 0;
    // all combinations of the settings that choose an alternative, on a few values
    for (int f = 0; f < 4; ++f) for (int n = 0; n < 4; ++n) for (int m = 0; m < 48; ++m, ++i) if (mine(i))
    {
        Sett s; s.v[0] = f; s.v[1] = n; s.v[5] = m & 1; s.v[6] = m >> 1 & 1; s.v[7] = m >> 2 & 1; s.v[8] = m >> 3 & 1; s.v[10] = m / 16;
        for (int j = 0; j < 2; ++j) { s.v[2] = rnd_field(r, 2, false); one<double>(r, s); }
        s.v[4] = rnd_field(r, 4, false); one<float>(r, s); s.v[3] = rnd_field(r, 3, false); one<long double>(r, s);
    }
    for (int n = count(14000, 400000); n > 0; --n)
    {
        Sett s = rnd_sett(r); int k = r.below(10);
        if (r.chance(12)) { s.v[0] = 0; s.v[1] = 3; s.v[2] = 0; }
        if (k < 5) one<double>(r, s); else if (k < 8) one<float>(r, s); else one<long double>(r, s);
    }
}

// Operations whose arguments and result have different formats, and conversions (P13).
// -DPART=0..7 selects the operations.
#include "rev.hpp"
VERIF_MAIN
template<typename R> DRep<R> dd(Rng& r, Rep<R> const& x) { return r.chance(4) ? DRep<R>(empty_rep<R>(), Dec::ill) : DRep<R>(x, rnd_dec(r, x)); }
// numbers whose rounding to a narrower format matters
template<typename T> T tricky(Rng& r, int lim)
{
    typedef std::numeric_limits<float> F; typedef std::numeric_limits<double> D;
    if (lim || r.chance(50)) return finite_num<T>(r, lim);
    long double a[] = { F::max(), F::min(), F::denorm_min(), D::max(), D::min(), D::denorm_min(), 0.1f, 0.1, 0.1L, 1 };
    long double v = a[r.below(10)];
    if (r.chance(30)) v *= 1.5L; else if (r.chance(30)) v /= 2; else if (r.chance(40)) v = std::nextafter(v, r.chance(50) ? 0.0L : 1e4900L);
    if (r.chance(50)) v = -v;
    T t = (T)v;
    if (!std::isfinite(t)) t = std::numeric_limits<T>::max();
    return nxt(t, r.range(-1, 0));
}
template<typename T> Rep<T> iv(Rng& r, int lim)
{
    if (r.chance(40)) return rnd_iv<T>(r, lim);
    if (!lim && r.chance(20)) { int sel = r.below(6); return mk(edge_num<T>(r, sel), edge_num<T>(r, sel)); }
    T a = tricky<T>(r, lim); if (!std::isfinite(a)) a = 1;
    if (r.chance(30)) return Rep<T>(a, a);
    T b = r.chance(40) ? nxt(a, 1) : tricky<T>(r, lim); if (!std::isfinite(b)) b = a;
    return mk(a, b);
}
template<typename Op, typename T, typename A> void u1(Rng& r, int lim)
{
    auto x = iv<A>(r, lim);
    un_mixed<Op, T>(x);
    if (r.chance(35)) un_mixed<Op, T>(dd(r, x));
}
template<typename Op, typename T, typename A, typename Bt> void b1(Rng& r, int lim)
{
    auto x = iv<A>(r, lim); auto y = iv<Bt>(r, lim);
    bi_mixed<Op, T>(x, y);
    if (r.chance(35)) { auto dx = dd(r, x); auto dy = dd(r, y); bi_mixed<Op, T>(dx, dy); }
}
typedef float f; typedef double d; typedef long double l;
template<typename Op> void U(Rng& r, int lim)
{
    for (int i = count(80, 5000); i > 0; --i)
    {
        u1<Op, f, d>(r, lim); u1<Op, d, f>(r, lim); u1<Op, f, l>(r, lim); u1<Op, l, f>(r, lim); u1<Op, d, l>(r, lim); u1<Op, l, d>(r, lim);
    }
}
template<typename Op> void BB(Rng& r, int lim)
{
    for (int i = count(40, 2500); i > 0; --i)
    {
        b1<Op, f, d, d>(r, lim); b1<Op, d, f, f>(r, lim); b1<Op, f, f, d>(r, lim); b1<Op, f, d, f>(r, lim); b1<Op, d, f, d>(r, lim); b1<Op, d, d, f>(r, lim);
        b1<Op, f, l, d>(r, lim); b1<Op, d, f, l>(r, lim); b1<Op, l, d, f>(r, lim); b1<Op, d, l, l>(r, lim); b1<Op, d, l, d>(r, lim); b1<Op, l, l, f>(r, lim);
    }
}
template<typename T, typename A, typename Bt, typename Ct> void fma1(Rng& r)
{
    auto x = iv<A>(r, 0); auto y = iv<Bt>(r, 0); auto z = iv<Ct>(r, 0);
    fma_mixed<T>(x, y, z);
    if (r.chance(35)) fma_mixed<T>(dd(r, x), dd(r, y), dd(r, z));
}
template<typename T, typename A> void pown1(Rng& r)
{
    auto x = iv<A>(r, 0);
    int p = r.chance(70) ? r.range(-6, 9) : r.range(-300, 300);
    pown_mixed<T>(x, p);
    if (r.chance(35)) pown_mixed<T>(dd(r, x), p);
}
// conversion between formats
template<typename T, typename A> void conv(Rng& r)
{
    auto x = iv<A>(r, 0); auto y = dd(r, x);
    Routes q, p, s;
    q.call('f', [&] { return enc(Fl<T>::convert_type(x)); });
    q.call('c', [&] { return enc(I<T>(obj(x))); });
    q.emit("convert", 0, Tags<T>::c, fm<Rep<A>>(), enc(x));
    p.call('f', [&] { return enc(Fl<T>::convert_type(y)); });
    p.call('c', [&] { return enc(DI<T>(obj(y))); });
    p.emit("convert", 1, Tags<T>::c, fm<DRep<A>>(), enc(y));
    s.call('c', [&] { return enc(DI<T>(obj(x))); });
    s.emit("new_dec", 1, Tags<T>::c, fm<Rep<A>>(), enc(x));
}
void run_property(Rng& r)
{
#if PART == 0
    BB<B_add>(r, 0); BB<B_sub>(r, 0); BB<B_mul>(r, 0);
#elif PART == 1
    BB<B_div>(r, 0); BB<B_min>(r, 0); BB<B_max>(r, 0);
#elif PART == 2
    BB<B_atan2>(r, 0); BB<B_pow>(r, 9);
#elif PART == 3
    U<U_pos>(r, 0); U<U_neg>(r, 0); U<U_recip>(r, 0); U<U_sqr>(r, 0); U<U_sqrt>(r, 0); U<U_abs>(r, 0); U<U_sign>(r, 0);
    for (int i = count(400, 20000); i > 0; --i) { conv<f, d>(r); conv<d, f>(r); conv<f, l>(r); conv<l, f>(r); conv<d, l>(r); conv<l, d>(r); conv<d, d>(r); conv<f, f>(r); conv<l, l>(r); }
#elif PART == 4
    U<U_exp>(r, 13); U<U_exp2>(r, 13); U<U_exp10>(r, 13); U<U_log>(r, 0); U<U_log2>(r, 0); U<U_log10>(r, 0);
#elif PART == 5
    U<U_sin>(r, 12); U<U_cos>(r, 12); U<U_tan>(r, 12); U<U_asin>(r, 0); U<U_acos>(r, 0); U<U_atan>(r, 0);
#elif PART == 6
    U<U_sinh>(r, 12); U<U_cosh>(r, 12); U<U_tanh>(r, 12); U<U_asinh>(r, 0); U<U_acosh>(r, 0); U<U_atanh>(r, 0);
#else
    U<U_ceil>(r, 0); U<U_floor>(r, 0); U<U_trunc>(r, 0); U<U_round_ties_to_even>(r, 0); U<U_round_ties_to_away>(r, 0);
    for (int i = count(80, 5000); i > 0; --i)
    {
        pown1<f, d>(r); pown1<d, f>(r); pown1<f, l>(r); pown1<l, f>(r); pown1<d, l>(r); pown1<l, d>(r);
        fma1<f, d, d, d>(r); fma1<d, f, f, f>(r); fma1<f, f, d, l>(r); fma1<d, l, f, d>(r); fma1<d, d, l, f>(r); fma1<l, d, f, d>(r); fma1<l, f, f, f>(r); fma1<f, l, l, l>(r);
        fma1<f, f, f, d>(r); fma1<d, d, d, f>(r);
    }
#endif
}

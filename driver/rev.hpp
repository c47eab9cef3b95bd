// Reverse operations, two-output division and cancellation.
#ifndef VERIF_REV_HPP
#define VERIF_REV_HPP
#include "ops.hpp"
#define REV(NAME) struct R_##NAME { static char const* spec() { return #NAME; } \
    template<typename T, typename... X> static auto flavor(X const&... x) -> decltype(Fl<T>::NAME(x...)) { return Fl<T>::NAME(x...); } \
    template<typename C, typename... X> static C cls(X const&... x) { return C::NAME(x...); } \
    template<typename C, typename... X> static C fre(X const&... x) { return NAME(x...); } };
REV(sqr_rev) REV(abs_rev) REV(cosh_rev) REV(sin_rev) REV(cos_rev) REV(tan_rev) REV(mul_rev) REV(cancel_plus) REV(cancel_minus)
REV(intersection) REV(convex_hull)
inline std::string join() { return ""; }
template<typename A> std::string encl(A const& a) { return enc(a); }
template<typename A, typename... B> std::string encl(A const& a, B const&... b) { return enc(a) + "," + encl(b...); }
template<typename A> std::string fml() { return fm<A>(); }
template<typename A, typename B, typename... C> std::string fml() { return fm<A>() + fml<B, C...>(); }

// any number of arguments, all of the result's format
template<typename Op, typename R, typename... X> void same(R const& x, X const&... y)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q;
    q.call('f', [&] { return enc(Op::template flavor<T>(x, y...)); });
    q.call('s', [&] { return enc(Op::template cls<C>(obj(x), obj(y)...)); });
    q.call('g', [&] { return enc(Op::template fre<C>(obj(x), obj(y)...)); });
    q.emit(Op::spec(), k, Tags<T>::c, fml<R, X...>(), encl(x, y...));
}
// flavor only: invalid objects
template<typename Op, typename T, typename... X> void flav(X const&... x)
{
    typedef typename std::tuple_element<0, std::tuple<X...>>::type R;
    Routes q;
    q.call('f', [&] { return enc(Op::template flavor<T>(x...)); });
    q.emit(Op::spec(), Kind<R>::k, Tags<T>::c, fml<X...>(), encl(x...));
}
// result format T, any argument formats
template<typename Op, typename T, typename... X> void mixed(X const&... x)
{
    typedef typename std::tuple_element<0, std::tuple<X...>>::type R;
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q;
    q.call('f', [&] { return enc(Op::template flavor<T>(x...)); });
    q.call('s', [&] { return enc(Op::template cls<C>(obj(x)...)); });
    q.emit(Op::spec(), k, Tags<T>::c, fml<X...>(), encl(x...));
}
template<typename R> void do_pown_rev(R const& c, int p)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C O = obj(c);
    q.call('f', [&] { return enc(Fl<T>::pown_rev(c, p)); });
    q.call('s', [&] { return enc(C::pown_rev(O, p)); });
    q.call('g', [&] { return enc(pown_rev(O, p)); });
    q.emit("pown_rev", k, Tags<T>::c, fm<R>(), enc(c), p);
}
template<typename R> void do_pown_rev(R const& c, R const& x, int p)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C O = obj(c), X = obj(x);
    q.call('f', [&] { return enc(Fl<T>::pown_rev(c, x, p)); });
    q.call('s', [&] { return enc(C::pown_rev(O, X, p)); });
    q.call('g', [&] { return enc(pown_rev(O, X, p)); });
    q.emit("pown_rev", k, Tags<T>::c, fml<R, R>(), encl(c, x), p);
}
template<typename T, typename R> void pown_rev_mixed(R const& c, int p)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q;
    q.call('f', [&] { return enc(Fl<T>::pown_rev(c, p)); });
    q.call('s', [&] { return enc(C::pown_rev(obj(c), p)); });
    q.emit("pown_rev", k, Tags<T>::c, fm<R>(), enc(c), p);
}
template<typename T, typename R, typename S> void pown_rev_mixed(R const& c, S const& x, int p)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q;
    q.call('f', [&] { return enc(Fl<T>::pown_rev(c, x, p)); });
    q.call('s', [&] { return enc(C::pown_rev(obj(c), obj(x), p)); });
    q.emit("pown_rev", k, Tags<T>::c, fml<R, S>(), encl(c, x), p);
}
template<typename R> void do_pair(R const& b, R const& c)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C B = obj(b), O = obj(c);
    q.call('f', [&] { return enc2(Fl<T>::mul_rev_to_pair(b, c)); });
    q.call('s', [&] { return enc2(C::mul_rev_to_pair(B, O)); });
    q.call('g', [&] { return enc2(mul_rev_to_pair(B, O)); });
    q.emit("mul_rev_to_pair", k, Tags<T>::c, fml<R, R>(), encl(b, c));
}
template<typename T, typename R, typename S> void pair_flav(R const& b, S const& c)
{
    Routes q;
    q.call('f', [&] { return enc2(Fl<T>::mul_rev_to_pair(b, c)); });
    q.emit("mul_rev_to_pair", Kind<R>::k, Tags<T>::c, fml<R, S>(), encl(b, c));
}
template<typename T, typename R, typename S> void pair_mixed(R const& b, S const& c)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q;
    q.call('f', [&] { return enc2(Fl<T>::mul_rev_to_pair(b, c)); });
    q.call('s', [&] { return enc2(C::mul_rev_to_pair(obj(b), obj(c))); });
    q.emit("mul_rev_to_pair", k, Tags<T>::c, fml<R, S>(), encl(b, c));
}
#endif

// Every way to reach a forward/reverse operation, as uniform templates.
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "common.hpp"
// Unary operation NAME of the library, called SPEC in the specification.
#define UN(NAME, SPEC) struct U_##NAME { static char const* spec() { return SPEC; } \
    template<typename T, typename X> static auto flavor(X const& x) -> decltype(Fl<T>::NAME(x)) { return Fl<T>::NAME(x); } \
    template<typename C, typename X> static C cls(X const& x) { return C::NAME(x); } \
    template<typename C> static C fre(C const& x) { return NAME(x); } };
#define BI(NAME, SPEC) struct B_##NAME { static char const* spec() { return SPEC; } \
    template<typename T, typename X, typename Y> static auto flavor(X const& x, Y const& y) -> decltype(Fl<T>::NAME(x, y)) { return Fl<T>::NAME(x, y); } \
    template<typename C, typename X, typename Y> static C cls(X const& x, Y const& y) { return C::NAME(x, y); } \
    template<typename C> static C fre(C const& x, C const& y) { return NAME(x, y); } };
UN(pos, "pos") UN(neg, "neg") UN(recip, "recip") UN(sqr, "sqr") UN(sqrt, "sqrt")
UN(exp, "exp") UN(exp2, "exp2") UN(exp10, "exp10") UN(log, "log") UN(log2, "log2") UN(log10, "log10")
UN(sin, "sin") UN(cos, "cos") UN(tan, "tan") UN(asin, "asin") UN(acos, "acos") UN(atan, "atan")
UN(sinh, "sinh") UN(cosh, "cosh") UN(tanh, "tanh") UN(asinh, "asinh") UN(acosh, "acosh") UN(atanh, "atanh")
UN(sign, "sign") UN(ceil, "ceil") UN(floor, "floor") UN(trunc, "trunc")
UN(round_ties_to_even, "rte") UN(round_ties_to_away, "rta") UN(abs, "abs")
BI(add, "add") BI(sub, "sub") BI(mul, "mul") BI(div, "div") BI(pow, "pow") BI(atan2, "atan2") BI(min, "min") BI(max, "max")
BI(intersection, "intersection") BI(convex_hull, "convex_hull")
BI(cancel_plus, "cancel_plus") BI(cancel_minus, "cancel_minus")

template<typename R> struct Kind;
template<typename T> struct Kind<Rep<T>> { typedef T type; static const int k = 0; };
template<typename T> struct Kind<DRep<T>> { typedef T type; static const int k = 1; };
template<typename R> using NumT = typename Kind<R>::type;
template<typename T, int K> struct ObjT { typedef I<T> type; };
template<typename T> struct ObjT<T, 1> { typedef DI<T> type; };
template<typename R> std::string fm() { return std::string(1, Tags<NumT<R>>::c); }

struct NoOp { template<typename C> static bool op1(Routes&, C const&) { return false; } };

// same format
template<typename Op, typename R> void un(R const& x)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C X = obj(x);
    q.call('f', [&] { return enc(Op::template flavor<T>(x)); });
    q.call('s', [&] { return enc(Op::template cls<C>(X)); });
    q.call('g', [&] { return enc(Op::template fre<C>(X)); });
    q.emit(Op::spec(), k, Tags<T>::c, fm<R>(), enc(x));
}
// only the class and free routes make sense for valid objects; invalid ones use the flavor
template<typename Op, typename R> void un_f(R const& x)
{
    typedef NumT<R> T;
    Routes q;
    q.call('f', [&] { return enc(Op::template flavor<T>(x)); });
    q.emit(Op::spec(), Kind<R>::k, Tags<T>::c, fm<R>(), enc(x));
}
template<typename Op, typename T, typename R> void un_mixed(R const& x)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; auto X = obj(x);
    q.call('f', [&] { return enc(Op::template flavor<T>(x)); });
    q.call('s', [&] { return enc(Op::template cls<C>(X)); });
    q.emit(Op::spec(), k, Tags<T>::c, fm<R>(), enc(x));
}
template<typename Op, typename R> void bi(R const& x, R const& y)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C X = obj(x), Y = obj(y);
    q.call('f', [&] { return enc(Op::template flavor<T>(x, y)); });
    q.call('s', [&] { return enc(Op::template cls<C>(X, Y)); });
    q.call('g', [&] { return enc(Op::template fre<C>(X, Y)); });
    q.emit(Op::spec(), k, Tags<T>::c, fm<R>() + fm<R>(), enc(x) + "," + enc(y));
}
template<typename Op, typename R> void bi_f(R const& x, R const& y)
{
    typedef NumT<R> T;
    Routes q;
    q.call('f', [&] { return enc(Op::template flavor<T>(x, y)); });
    q.emit(Op::spec(), Kind<R>::k, Tags<T>::c, fm<R>() + fm<R>(), enc(x) + "," + enc(y));
}
template<typename Op, typename T, typename R, typename S> void bi_mixed(R const& x, S const& y)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; auto X = obj(x); auto Y = obj(y);
    q.call('f', [&] { return enc(Op::template flavor<T>(x, y)); });
    q.call('s', [&] { return enc(Op::template cls<C>(X, Y)); });
    q.emit(Op::spec(), k, Tags<T>::c, fm<R>() + fm<S>(), enc(x) + "," + enc(y));
}
// operators
#define OPER(NAME, SPEC, EXPR) template<typename R> void NAME(R const& x, R const& y) { \
    typedef NumT<R> T; Routes q; auto X = obj(x); auto Y = obj(y); (void)Y; \
    q.call('o', [&] { return enc(EXPR); }); \
    q.emit(SPEC, Kind<R>::k, Tags<T>::c, fm<R>() + fm<R>(), enc(x) + "," + enc(y)); }
#define OPER1(NAME, SPEC, EXPR) template<typename R> void NAME(R const& x) { \
    typedef NumT<R> T; Routes q; auto X = obj(x); \
    q.call('o', [&] { return enc(EXPR); }); \
    q.emit(SPEC, Kind<R>::k, Tags<T>::c, fm<R>(), enc(x)); }
OPER(op_add, "add", X + Y) OPER(op_sub, "sub", X - Y) OPER(op_mul, "mul", X * Y) OPER(op_div, "div", X / Y)
OPER1(op_pos, "pos", +X) OPER1(op_neg, "neg", -X)

template<typename R> void do_fma(R const& x, R const& y, R const& z)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C X = obj(x), Y = obj(y), Z = obj(z);
    q.call('f', [&] { return enc(Fl<T>::fma(x, y, z)); });
    q.call('s', [&] { return enc(C::fma(X, Y, Z)); });
    q.call('g', [&] { return enc(fma(X, Y, Z)); });
    q.emit("fma", k, Tags<T>::c, fm<R>() + fm<R>() + fm<R>(), enc(x) + "," + enc(y) + "," + enc(z));
}
template<typename T, typename R, typename S, typename U> void fma_mixed(R const& x, S const& y, U const& z)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; auto X = obj(x); auto Y = obj(y); auto Z = obj(z);
    q.call('f', [&] { return enc(Fl<T>::fma(x, y, z)); });
    q.call('s', [&] { return enc(C::fma(X, Y, Z)); });
    q.emit("fma", k, Tags<T>::c, fm<R>() + fm<S>() + fm<U>(), enc(x) + "," + enc(y) + "," + enc(z));
}
template<typename R> void do_pown(R const& x, int n)
{
    typedef NumT<R> T; const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; C X = obj(x);
    q.call('f', [&] { return enc(Fl<T>::pown(x, n)); });
    q.call('s', [&] { return enc(C::pown(X, n)); });
    q.call('g', [&] { return enc(pown(X, n)); });
    q.emit("pown", k, Tags<T>::c, fm<R>(), enc(x), n);
}
template<typename T, typename R> void pown_mixed(R const& x, int n)
{
    const int k = Kind<R>::k; typedef typename ObjT<T, k>::type C;
    Routes q; auto X = obj(x);
    q.call('f', [&] { return enc(Fl<T>::pown(x, n)); });
    q.call('s', [&] { return enc(C::pown(X, n)); });
    q.emit("pown", k, Tags<T>::c, fm<R>(), enc(x), n);
}
#endif

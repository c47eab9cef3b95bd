// Relations, predicates, overlap state and numeric functions.
#ifndef VERIF_BOOL_HPP
#define VERIF_BOOL_HPP
#include "rev.hpp"
#define RELF(NAME) struct L_##NAME { static char const* spec() { return #NAME; } static const bool fl = true; \
    template<typename T, typename X, typename Y> static bool flavor(X const& x, Y const& y) { return Fl<T>::NAME(x, y); } \
    template<typename C, typename Y> static bool cls(C const& x, Y const& y) { return C::NAME(x, y); } \
    template<typename C, typename Y> static bool fre(C const& x, Y const& y) { return NAME(x, y); } };
// without a flavor route of its own: the mirrored relation decides
#define RELC(NAME, MIRROR) struct L_##NAME { static char const* spec() { return #NAME; } \
    template<typename T, typename X, typename Y> static bool flavor(X const& x, Y const& y) { return Fl<NumT<Y>>::MIRROR(y, x); } \
    template<typename C, typename Y> static bool cls(C const& x, Y const& y) { return C::NAME(x, y); } \
    template<typename C, typename Y> static bool fre(C const& x, Y const& y) { return NAME(x, y); } };
RELF(equal) RELF(subset) RELF(less) RELF(precedes) RELF(interior) RELF(strictly_less) RELF(strictly_precedes) RELF(disjoint)
RELC(superset, subset) RELC(greater, less) RELC(succeeds, precedes) RELC(contains_interior, interior)
RELC(strictly_greater, strictly_less) RELC(strictly_succeeds, strictly_precedes)
template<typename R> typename ObjT<NumT<R>, Kind<R>::k>::type ob(R const& r) { return obj(r); }
template<typename Op, typename R, typename S> void rel(R const& x, S const& y)
{
    typedef NumT<R> T; typedef typename ObjT<T, Kind<R>::k>::type C;
    Routes q; auto X = ob(x); auto Y = ob(y);
    q.call('f', [&] { return enc(Op::template flavor<T>(x, y)); });
    q.call('s', [&] { return enc(Op::template cls<C>(X, Y)); });
    q.call('g', [&] { return enc(Op::template fre(X, Y)); });
    q.emit(Op::spec(), Kind<R>::k, Tags<T>::c, fml<R, S>(), encl(x, y));
}
template<typename Op, typename R, typename S> void rel_f(R const& x, S const& y)
{
    Routes q;
    q.call('f', [&] { return enc(Op::template flavor<NumT<R>>(x, y)); });
    q.emit(Op::spec(), Kind<R>::k, Tags<NumT<R>>::c, fml<R, S>(), encl(x, y));
}
template<typename R, typename S> void rel_ops(R const& x, S const& y)
{
    auto X = ob(x); auto Y = ob(y);
    Routes q; q.call('o', [&] { return enc((bool)(X == Y)); });
    q.emit("equal", Kind<R>::k, Tags<NumT<R>>::c, fml<R, S>(), encl(x, y));
    Routes p; p.call('o', [&] { return enc((bool)(X != Y)); });
    p.emit("not_equal", Kind<R>::k, Tags<NumT<R>>::c, fml<R, S>(), encl(x, y));
}
template<typename R, typename S> void rels(R const& x, S const& y)
{
    rel<L_equal>(x, y); rel<L_subset>(x, y); rel<L_less>(x, y); rel<L_precedes>(x, y); rel<L_interior>(x, y);
    rel<L_strictly_less>(x, y); rel<L_strictly_precedes>(x, y); rel<L_disjoint>(x, y);
    rel<L_superset>(x, y); rel<L_greater>(x, y); rel<L_succeeds>(x, y); rel<L_contains_interior>(x, y);
    rel<L_strictly_greater>(x, y); rel<L_strictly_succeeds>(x, y); rel_ops(x, y);
}
template<typename R, typename S> void rels_f(R const& x, S const& y)
{
    rel_f<L_equal>(x, y); rel_f<L_subset>(x, y); rel_f<L_less>(x, y); rel_f<L_precedes>(x, y); rel_f<L_interior>(x, y);
    rel_f<L_strictly_less>(x, y); rel_f<L_strictly_precedes>(x, y); rel_f<L_disjoint>(x, y);
}
template<typename R, typename S> void do_overlap(R const& x, S const& y, bool objects = true)
{
    typedef typename ObjT<NumT<R>, Kind<R>::k>::type C;
    Routes q;
    q.call('f', [&] { return enc((int)Fl<NumT<R>>::overlap(x, y)); });
    if (objects)
    {
        q.call('s', [&] { return enc((int)C::overlap(ob(x), ob(y))); });
        q.call('g', [&] { return enc((int)overlap(ob(x), ob(y))); });
    }
    q.emit("overlap", Kind<R>::k, Tags<NumT<R>>::c, fml<R, S>(), encl(x, y));
}
#define PRED(NAME) struct Q_##NAME { static char const* spec() { return #NAME; } \
    template<typename T, typename X> static auto flavor(X const& x) -> decltype(Fl<T>::NAME(x)) { return Fl<T>::NAME(x); } \
    template<typename C, typename X> static auto cls(X const& x) -> decltype(C::NAME(x)) { return C::NAME(x); } \
    template<typename C> static auto fre(C const& x) -> decltype(C::NAME(x)) { return NAME(x); } };
PRED(is_empty) PRED(is_entire) PRED(is_common_interval) PRED(is_singleton) PRED(is_nai)
PRED(inf) PRED(sup) PRED(mid) PRED(rad) PRED(wid) PRED(mag) PRED(mig)
template<typename T> std::string encq(T v) { return enc(v); }
inline std::string encq(bool v) { return enc(v); }
template<typename T> std::string encq(std::pair<T, T> const& p) { return enc(p); }
PRED(mid_rad)
template<typename Op, typename R> void pred(R const& x, bool objects = true)
{
    typedef typename ObjT<NumT<R>, Kind<R>::k>::type C;
    Routes q;
    q.call('f', [&] { return encq(Op::template flavor<NumT<R>>(x)); });
    if (objects)
    {
        q.call('s', [&] { return encq(Op::template cls<C>(ob(x))); });
        q.call('g', [&] { return encq(Op::template fre<C>(ob(x))); });
    }
    q.emit(Op::spec(), Kind<R>::k, Tags<NumT<R>>::c, fm<R>(), enc(x));
}
template<typename Op, typename T, typename R> void pred_mixed(R const& x, bool objects = true)
{
    typedef typename ObjT<T, Kind<R>::k>::type C;
    Routes q;
    q.call('f', [&] { return encq(Op::template flavor<T>(x)); });
    if (objects) q.call('s', [&] { return encq(Op::template cls<C>(ob(x))); });
    q.emit(Op::spec(), Kind<R>::k, Tags<T>::c, fm<R>(), enc(x));
}
template<typename M, typename R> void do_member(M m, R const& x, bool objects = true)
{
    typedef typename ObjT<NumT<R>, Kind<R>::k>::type C;
    Routes q;
    q.call('f', [&] { return enc((bool)Fl<NumT<R>>::is_member(m, x)); });
    if (objects)
    {
        q.call('s', [&] { return enc((bool)C::is_member(m, ob(x))); });
        q.call('g', [&] { return enc((bool)is_member(m, ob(x))); });
    }
    q.emit("is_member", Kind<R>::k, Tags<NumT<R>>::c, std::string(1, Tags<M>::c) + fm<R>(), enc(m) + "," + enc(x));
}
#endif

// Basic arithmetic: pos neg add sub mul div recip sqr sqrt fma
#include "ops.hpp"
VERIF_MAIN
template<typename T> std::vector<Rep<T>> grid()
{
    typedef std::numeric_limits<T> L;
    T p[] = { 0, L::denorm_min(), L::min(), (T)0.5, 1, nxt((T)1, 1), (T)3, 1 / (T)3, L::max() };
    std::vector<T> v; v.push_back(-INF<T>());
    for (int i = 8; i > 0; --i) v.push_back(-p[i]);
    for (int i = 0; i < 9; ++i) v.push_back(p[i]);
    v.push_back(INF<T>());
    std::vector<Rep<T>> g; g.push_back(empty_rep<T>());
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = i; j < v.size(); ++j)
        if (v[i] != INF<T>() && v[j] != -INF<T>()) g.push_back(Rep<T>(v[i], v[j]));
    return g;
}
template<typename T> void cases(Rng& r)
{
    auto g = grid<T>();
    for (size_t i = 0; i < g.size(); ++i) if (mine(i))
    {
        un<U_pos>(g[i]); un<U_neg>(g[i]); un<U_recip>(g[i]); un<U_sqr>(g[i]); un<U_sqrt>(g[i]);
        op_pos(g[i]); op_neg(g[i]);
        un<U_recip>(strongest(g[i])); un<U_sqrt>(strongest(g[i])); un<U_sqr>(strongest(g[i]));
        un<U_pos>(strongest(g[i])); un<U_neg>(strongest(g[i]));
    }
    // pairs of the grid: all in the thorough tier, a sample in the quick tier
    long n = 0;
    for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j, ++n)
        if (mine(n) && (g_cfg.thorough || r.below(100) < 3))
        {
            bi<B_add>(g[i], g[j]); bi<B_sub>(g[i], g[j]); bi<B_mul>(g[i], g[j]); bi<B_div>(g[i], g[j]);
        }
    for (int i = count(1600, 40000); i > 0; --i)
    {
        auto x = rnd_iv<T>(r), y = rnd_iv<T>(r), z = rnd_iv<T>(r);
        bi<B_add>(x, y); bi<B_sub>(x, y); bi<B_mul>(x, y); bi<B_div>(x, y);
        do_fma(x, y, z);
        un<U_recip>(x); un<U_sqr>(x); un<U_sqrt>(x); un<U_pos>(x); un<U_neg>(x);
        if (i % 4 == 0)
        {
            op_add(x, y); op_sub(x, y); op_mul(x, y); op_div(x, y); op_pos(x); op_neg(x);
            auto dx = rnd_div<T>(r), dy = rnd_div<T>(r), dz = rnd_div<T>(r);
            bi<B_add>(dx, dy); bi<B_sub>(dx, dy); bi<B_mul>(dx, dy); bi<B_div>(dx, dy); do_fma(dx, dy, dz);
            op_add(dx, dy); op_sub(dx, dy); op_mul(dx, dy); op_div(dx, dy); op_neg(dx);
            un<U_recip>(dx); un<U_sqr>(dx); un<U_sqrt>(dx);
        }
        {
            quot_pair(r, x, y); bi<B_div>(y, x); un<U_recip>(x); if (r.chance(20)) bi<B_div>(strongest(y), strongest(x));
            prod_pair(r, x, y); bi<B_mul>(x, y); if (r.chance(20)) bi<B_mul>(strongest(x), strongest(y));
            Rep<T> p(x.first * y.first, x.first * y.first); if (std::isfinite(p.first)) do_fma(x, y, mk((T)-p.first, r.chance(50) ? (T)-p.first : class_num<T>(r)));
            T s = class_num<T>(r); bi<B_add>(mk(s, class_num<T>(r)), mk((T)-about_num(r, s), class_num<T>(r))); bi<B_sub>(mk(s, class_num<T>(r)), mk(about_num(r, s), class_num<T>(r)));
            s = class_num<T>(r); T m = std::sqrt(std::fabs(s)); un<U_sqr>(mk(about_num(r, m), (T)-about_num(r, std::sqrt(std::fabs(class_num<T>(r)))))); un<U_sqrt>(mk((T)std::fabs(s), about_num(r, (T)(m * m))));
        }
        // results around the edges of the format, exact quotients and products
        T a = finite_num<T>(r, 20), b = finite_num<T>(r, 20);
        bi<B_div>(Rep<T>(a * b, a * b), Rep<T>(b, b));
        bi<B_mul>(mk(a, b), mk(std::numeric_limits<T>::max() / 2, std::numeric_limits<T>::max()));
        bi<B_mul>(mk(a, b), Rep<T>(std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min()));
        bi<B_div>(mk(a, b), Rep<T>(std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min()));
        bi<B_div>(Rep<T>(std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min()), mk(a, b));
        un<U_sqrt>(Rep<T>(std::min(a * a, b * b), std::max(a * a, b * b)));
        do_fma(Rep<T>(a, a), Rep<T>(b, b), Rep<T>(-a * b, -a * b));
    }
}
void run_property(Rng& r) { cases<double>(r); cases<float>(r); cases<long double>(r); }

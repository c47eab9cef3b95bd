// The operations of Exc.tla's list OpSignals, performed on the calling thread.
// Included in two translation units.
#include "common.hpp"
static void exc_op(int i, unsigned salt)
{
    typedef double T;
    typedef Rep<double> B; typedef DRep<double> D;
    B const v1(1, 2), v2(-3, 0.1), e = empty_rep<double>();
    B const bads[] = { B(2, 1), B(QNAN<double>(), 1), B(1, QNAN<double>()), B(INF<double>(), INF<double>()) };
    B const bad = bads[salt % 4];
    D const dbads[] = { D(B(2, 1), Dec::trv), D(B(1, INF<double>()), Dec::com), D(e, Dec::def), D(v1, Dec::ill), D(e, Dec::com) };
    D const dbad = dbads[salt % 5];
    D const nai(e, Dec::ill), d1(v1, Dec::com), d2(v2, Dec::def);
    volatile double zero = 0;
    std::stringstream ss;
    switch (i)
    {
    case 1: Fl<T>::add(v1, v2); Fl<T>::add(d1, d2); Fl<T>::cosh(v2); break;
    case 2: { I<T> x(2.0 + salt % 3, 1.0); break; }
    case 3: if (salt % 2) Fl<T>::interval_part(nai); else { DI<T> n; rep(n) = nai; I<T> x(n); } break;
    case 4: if (salt % 2) Fl<T>::add(v1, bad); else Fl<T>::add(bad, v1); break;
    case 5: Fl<T>::exp(dbad); break;
    case 6: Fl<T>::nums_dec_to_decorated_interval(1.0, 2.0, (Dec)(salt % 2 ? 17 : 3)); break;
    case 7: { I<T> x("xyz"); break; }
    case 8: { I<T> x("[nai]"); break; }
    case 9: { DI<T> x("[1,2]_foo"); break; }
    case 10: { I<T> x("[1,2]"); DI<T> y("[1,2]_def"); DI<T> z("[nai]"); break; }
    case 11: ss << obj(v1) << obj(d2) << obj(nai) << obj(e); break;
    case 12: { DI<T> n; rep(n) = nai; DI<T> y = n + obj(d1); y = sqrt(y); y = intersection(y, n); break; }
    case 13: { double a[] = { 1, INF<double>(), -INF<double>(), 3 }; Fl<T>::convert_type(v1);
               p1788::reduction::sum(a, a + 4, p1788::reduction::rnd_mode::to_nearest); break; }
    case 14: I<double>::add(obj(Rep<float>(1, 2)), obj(Rep<long double>(1, 2))); I<float>::mul(obj(v1), obj(v2)); break;
    case 15: if (salt % 2) Fl<T>::is_valid(bad); else Fl<T>::is_valid(dbad); break;
    case 16: { DI<T> x(2.0, 1.0); break; }
    case 17: { DI<T> x(1.0, 2.0, Dec::ill); break; }
    case 18: if (salt % 2) Fl<T>::mul_rev(bad, v1); else Fl<T>::mul_rev(v1, v2, bad); break;
    case 19: if (salt % 2) Fl<T>::precedes(v1, bad); else Fl<T>::subset(dbad, d1); break;
    case 20: { DI<T> x; rep(x) = dbad; DI<T> y(x); break; }
    case 21: Fl<T>::sqrt(B(-2, -1)); Fl<T>::log(d2); Fl<T>::acosh(B(0, 0)); break;
    case 22: Fl<T>::recip(B(0, 0)); Fl<T>::div(d1, D(B(0, 0), Dec::com)); Fl<T>::pow(B(-1, 0), B(-1, zero)); break;
    case 23: if (salt % 2) Fl<T>::mid(bad); else Fl<T>::inf(dbad); break;
    case 24: if (salt % 2) { I<T> x(QNAN<double>(), 1.0); } else { I<T> x(INF<double>(), INF<double>()); } break;
    }
}
// one action: returns <<thrown conditions, returned value>>
static void exc_do(std::string const& a, int c, unsigned salt, int& thrown, int& ret)
{
    thrown = 0; ret = -2;
    try
    {
        if (a == "signal")
        {
            ret = -1;
            if (c == 1) ret = ex::signal_undefined_operation();
            else if (c == 2) ret = ex::signal_possibly_undefined_operation();
            else if (c == 4) ret = ex::signal_interval_part_of_nai();
            else if (c == 8) ret = ex::signal_invalid_operand();
        }
        else if (a == "reset") { ex::state() &= ~(ex::exception_bits)c; ret = (int)ex::state(); }
        else if (a == "clear") ret = (int)ex::clear();
        else if (a == "cwd") ret = (int)ex::set_throw_exception_cwd((ex::exception_bits)c);
        else if (a == "op") exc_op(c, salt);
    }
    catch (ex::exception& x)
    {
        thrown = dynamic_cast<ex::undefined_operation_exception*>(&x) ? 1 : dynamic_cast<ex::possibly_undefined_operation_exception*>(&x) ? 2
               : dynamic_cast<ex::interval_part_of_nai_exception*>(&x) ? 4 : dynamic_cast<ex::invalid_operand_exception*>(&x) ? 8 : 64;
    }
    catch (std::exception&) { thrown = 32; }
    catch (...) { thrown = 128; }
}
static std::string exc_obs(int t)
{
    int q = (ex::undefined_operation() ? 1 : 0) | (ex::possibly_undefined_operation() ? 2 : 0)
          | (ex::interval_part_of_nai() ? 4 : 0) | (ex::invalid_operand() ? 8 : 0);
    char b[64];
    snprintf(b, sizeof b, "[%d,%d,%d,%d]", t, (int)ex::state(), (int)ex::get_throw_exception_cwd(), q);
    return b;
}

// Output settings of a stream as a value, and the manipulators that select them.
#ifndef VERIF_SETTINGS_HPP
#define VERIF_SETTINGS_HPP
#include "common.hpp"
#include <iomanip>
struct Sett
{
    int v[11];
    Sett() { for (int& x : v) x = 0; }
    static char const* name(int i) { static char const* n[] = { "form", "num", "prec", "width", "swidth", "upper", "nopunct", "uexp", "decnum", "ovlnum", "special" }; return n[i]; }
    static int fields() { return 11; }
    std::string json() const { std::string s = "{"; for (int i = 0; i < 11; ++i) { if (i) s += ","; s += "\""; s += name(i); s += "\":" + std::to_string(v[i]); } return s + "}"; }
};
inline void set_field(std::ostream& os, std::string const& f, int v)
{
    namespace io = p1788::io;
    if (f == "form") { if (v == 0) os << io::inf_sup_form; else if (v == 1) os << io::uncertain_form; else if (v == 2) os << io::uncertain_up_form; else os << io::uncertain_down_form; }
    else if (f == "num") { if (v == 0) os << io::decimal_scientific; else if (v == 1) os << io::decimal; else if (v == 2) os << io::scientific; else os << io::hex; }
    else if (f == "prec") os << io::precision(v);
    else if (f == "width") os << io::width(v);
    else if (f == "swidth") os << io::string_width(v);
    else if (f == "upper") { if (v) os << io::upper_case; else os << io::lower_case; }
    else if (f == "nopunct") { if (v) os << io::no_punctuation; else os << io::punctuation; }
    else if (f == "uexp") { if (v) os << io::uncertain_exponent; else os << io::no_uncertain_exponent; }
    else if (f == "decnum") { if (v) os << io::dec_numeric; else os << io::dec_alpha; }
    else if (f == "ovlnum") { if (v) os << io::overlapping_numeric; else os << io::overlapping_alpha; }
    else if (f == "special") { if (v == 0) os << io::special_text; else if (v == 1) os << io::special_bounds; else os << io::special_no_bounds; }
    else exit(2);
}
inline int rnd_field(Rng& r, int i, bool big)
{
    if (i >= 2 && i <= 4 && r.chance(10)) { int n = dict_int(r, 60); return n < 0 ? 0 : n; }
    switch (i)
    {
    case 0: case 1: return r.below(4);
    case 2: return r.chance(35) ? 0 : r.chance(85) ? r.range(1, 20) : big ? r.range(21, 300) : r.range(21, 45);
    case 3: return r.chance(50) ? 0 : r.chance(90) ? r.range(1, 25) : big ? r.range(26, 400) : r.range(26, 60);
    case 4: return r.chance(50) ? 0 : r.chance(90) ? r.range(1, 60) : big ? r.range(61, 600) : r.range(61, 90);
    case 10: return r.below(3);
    default: return r.below(2);
    }
}
inline Sett rnd_sett(Rng& r)
{
    Sett s; int dens = r.chance(50) ? 30 : 80;
    for (int i = 0; i < 11; ++i) if (r.chance(dens)) s.v[i] = rnd_field(r, i, r.chance(4));
    return s;
}
inline void set_all(std::ostream& os, Sett const& s, Rng& r)
{
    int p[11]; for (int i = 0; i < 11; ++i) p[i] = i;
    for (int i = 10; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
    for (int i : p) if (s.v[i] || r.chance(50)) set_field(os, Sett::name(i), s.v[i]);
}
#endif

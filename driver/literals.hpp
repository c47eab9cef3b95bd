// Generator of interval literals: valid ones, near misses and noise.
#ifndef VERIF_LITERALS_HPP
#define VERIF_LITERALS_HPP
#include "common.hpp"
struct Lits
{
    Rng& r;
    bool far;      // a huge exponent was used in this literal already
    explicit Lits(Rng& q) : r(q), far(false) {}
    std::string ws() { std::string s; static char const w[] = " \t\n\v\f\r"; if (r.chance(75)) return s; for (int k = r.range(1, 3); k > 0; --k) s += r.chance(70) ? ' ' : w[r.below(6)]; return s; }
    std::string cas(std::string s) { int m = r.below(4); if (m == 0) for (auto& c : s) c = (char)toupper(c); else if (m == 1) for (auto& c : s) if (r.chance(50)) c = (char)toupper(c); return s; }
    std::string digits(int n, char const* a = "0123456789") { std::string s; int m = (int)strlen(a); while (n-- > 0) s += a[r.below(m)]; return s; }
    std::string sign() { int k = r.below(10); return k < 3 ? "-" : k == 3 ? "+" : ""; }
    std::string esign() { int k = r.below(10); return k < 4 ? "-" : k < 6 ? "+" : ""; }
    std::string exp10()
    {
        switch (r.below(12))
        {
        case 0: return esign() + std::to_string(r.range(300, 400));
        case 1: return esign() + std::to_string(r.range(4900, 5000));
        case 2: return esign() + std::to_string(r.range(30, 60));
        case 3: return esign() + "00" + std::to_string(r.below(30));
        case 4: if (far || r.chance(60)) return "-5"; far = true; return esign() + std::to_string(r.range(5000, 15000));
        case 5: if (far || r.chance(90)) return "0"; far = true; return esign() + digits(r.range(6, 22), "123456789");
        case 6: return esign() + std::to_string(std::max(0, dict_int(r, 420)));
        default: return esign() + std::to_string(r.below(25));
        }
    }
    std::string exp2()
    {
        switch (r.below(12))
        {
        case 0: return esign() + std::to_string(r.range(1000, 1100));
        case 1: return esign() + std::to_string(r.range(16300, 16500));
        case 2: return esign() + std::to_string(r.range(100, 160));
        case 3: return esign() + "00" + std::to_string(r.below(30));
        case 4: if (far || r.chance(90)) return "0"; far = true; return esign() + digits(r.range(6, 22), "123456789");
        default: return esign() + std::to_string(r.below(70));
        }
    }
    std::string mant(char const* a)
    {
        int n = r.chance(80) ? r.range(1, 8) : r.chance(80) ? r.range(1, 45) : dict_int(r, 80);
        if (n < 1) n = 1;
        std::string s = digits(n, a);
        int k = r.below(10);
        if (k < 5) s.insert(r.below(n + 1), ".");
        if (r.chance(8)) s.insert(0, digits(r.range(1, 4), "0"));
        if (r.chance(8)) s += digits(r.range(1, 30), "0");
        return s;
    }
    // exact decimal expansion of a number, or nearly so
    template<typename T> std::string exact()
    {
        T v = r.chance(40) ? finite_num<T>(r, 12) : r.chance(70) ? finite_num<T>(r, 70) : finite_num<T>(r);
        if (r.chance(15)) v = std::numeric_limits<T>::max(); else if (r.chance(10)) v = std::numeric_limits<T>::denorm_min() * r.range(1, 3);
        char* p = 0; char f[16]; std::string s;
        snprintf(f, sizeof f, "%%.%d%s", 16600, r.chance(50) ? "Re" : "Rf");
        if (std::fabs((long double)v) < 1e-300L || std::fabs((long double)v) > 1e300L) snprintf(f, sizeof f, "%%.%dRe", 16600);
        mpfr_exp_t lo = mpfr_get_emin(), hi = mpfr_get_emax();
        mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
        mpfr_t m; mpfr_init2(m, 64); mpfr_set_ld(m, v, MPFR_RNDN); mpfr_asprintf(&p, f, m); s = p; mpfr_free_str(p); mpfr_clear(m);
        mpfr_set_emin(lo); mpfr_set_emax(hi);
        size_t e = s.find('e'); std::string x = e == std::string::npos ? "" : s.substr(e); if (e != std::string::npos) s = s.substr(0, e);
        while (s[s.size() - 1] == '0') s.resize(s.size() - 1);
        if (s.size() > 400) s.resize(r.range(20, 400));
        int k = r.below(10);
        if (k < 3) s += digits(r.range(0, 3), "0") + "1";                                    // a little above in magnitude
        else if (k < 5 && s[s.size() - 1] > '0' && s[s.size() - 1] <= '9') { --s[s.size() - 1]; s += digits(r.range(1, 3), "9"); }  // a little below
        if (s == "-" || s.empty()) s = "0";
        return s + x;
    }
    // digits of a whole number next to a limit of a machine integer, or between two of them
    std::string machine()
    {
        static int const k[] = { 31, 32, 63, 64, 63, 64, 8, 15, 16, 53, 62, 65, 128 };
        int i = r.below(r.chance(70) ? 6 : 13); unsigned __int128 m = k[i] == 128 ? 0 : (unsigned __int128)1 << k[i];
        switch (r.below(4))
        {
        case 0: m += (unsigned)r.below(4); break;
        case 1: m -= (unsigned)r.below(4); break;
        case 2: m += m / (unsigned)r.range(2, 9); break;
        default: m += ((unsigned __int128)r.next() << 64 | r.next()) % (m ? m : 7); break;
        }
        std::string s; do s.insert(s.begin(), (char)('0' + (int)(m % 10))); while (m /= 10); return s;
    }
    std::string rational()
    {
        if (r.chance(50)) { std::string d = r.chance(70) ? machine() : digits(r.range(1, 3), "123456789"); if (d.find_first_not_of('0') == std::string::npos) d += "1"; return sign() + (r.chance(50) ? machine() : digits(r.range(1, 3))) + ws() + "/" + ws() + d; }
        std::string n = sign() + digits(r.range(1, r.chance(80) ? 5 : 40)), d = digits(r.range(1, r.chance(80) ? 4 : 40));
        if (r.chance(95)) d += digits(1, "123456789");
        return n + ws() + "/" + ws() + d;
    }
    std::string number()
    {
        switch (r.below(10))
        {
        case 0: case 1: case 2: return sign() + mant("0123456789") + (r.chance(50) ? (r.chance(50) ? "e" : "E") + exp10() : "");
        case 3: case 4: return sign() + cas("0x") + cas(r.chance(10) ? (r.chance(50) ? "8" : "7fffffff") + digits(r.chance(50) ? 15 : 7, "0f") : mant("0123456789abcdef")) + (r.chance(96) ? (r.chance(50) ? "p" : "P") + exp2() : "");
        case 5: return rational();
        case 6: if (r.chance(30)) { std::string m = machine(); if (r.chance(30)) m.insert(r.below((int)m.size() + 1), "."); return sign() + m + (r.chance(20) ? "e" + exp10() : ""); } return sign() + digits(r.range(1, 3));
        case 7: return exact<float>();
        case 8: return exact<double>();
        default: return r.chance(20) ? exact<long double>() : sign() + std::to_string(r.below(30)) + "." + std::to_string(r.below(100));
        }
    }
    // about the value of a number literal
    static long double about(std::string s)
    {
        size_t k = s.find('/');
        if (k != std::string::npos) return strtold(s.substr(0, k).c_str(), 0) / strtold(s.substr(k + 1).c_str(), 0);
        return strtold(s.c_str(), 0);
    }
    std::string ordered(std::string a, std::string b)
    {
        if (about(a) > about(b) && r.chance(90)) std::swap(a, b);
        return a + ws() + "," + ws() + b;
    }
    std::string uncertain()
    {
        std::string s = sign() + (r.chance(8) ? machine() : mant("0123456789")) + "?";
        int k = r.below(10);
        if (r.chance(6)) s += machine(); else if (k < 2) s += "?"; else if (k < 7) s += digits(r.range(1, r.chance(85) ? 4 : 30));
        k = r.below(10);
        if (k < 3) s += r.chance(50) ? "u" : "U"; else if (k < 6) s += r.chance(50) ? "d" : "D";
        if (r.chance(45)) s += (r.chance(50) ? "e" : "E") + exp10();
        return s;
    }
    std::string body()
    {
        switch (r.below(14))
        {
        case 0: return cas("empty");
        case 1: return cas("entire");
        case 2: return r.chance(50) ? cas("nai") : "";
        case 3: case 4: return number();
        case 5: return number() + ws() + "," + ws() + cas(r.chance(50) ? "inf" : "infinity");
        case 6: return cas(r.chance(50) ? "-inf" : "-infinity") + ws() + "," + ws() + number();
        case 7: { std::string a = r.chance(30) ? "" : r.chance(50) ? number() : cas("-inf"), b = r.chance(30) ? "" : r.chance(50) ? number() : cas(r.chance(50) ? "+inf" : "infinity"); return a + ws() + "," + ws() + b; }
        case 8: { std::string n = number(); return n + "," + n; }
        default:
        {   // mostly ordered
            long double p = finite_num<double>(r, 10), q = finite_num<double>(r, 10); if (p > q && r.chance(90)) std::swap(p, q);
            char a[64], b[64];
            switch (r.below(7))
            {
            case 0: snprintf(a, 64, "%.*Lf", r.below(12), p); snprintf(b, 64, "%.*Lf", r.below(12), q); break;
            case 1: snprintf(a, 64, "%.*Le", r.below(22), p); snprintf(b, 64, "%.*Lg", r.range(1, 22), q); break;
            case 2: snprintf(a, 64, "%La", p); snprintf(b, 64, "%La", q); break;
            default: return ordered(number(), number());
            }
            return a + ws() + "," + ws() + b;
        }
        }
    }
    std::string deco()
    {
        static char const* d[] = { "trv", "def", "dac", "com", "com", "dac", "ill", "0", "4", "8", "12", "16", "04", "5", "99999999999", "co", "c om", "come", "x" };
        return "_" + std::string(r.chance(4) ? " " : "") + cas(d[r.chance(80) ? r.below(6) : r.below(19)]);
    }
    std::string literal()
    {
        far = false;
        std::string s = r.chance(28) ? uncertain() : "[" + ws() + body() + ws() + "]";
        if (r.chance(35)) s += deco();
        return s;
    }
    std::string mutate(std::string s)
    {
        static char const a[] = "[]()+-..,,eE0123459xXpP//??uUdD__ \tinfatyempr:*";
        for (int k = r.chance(70) ? 1 : r.range(2, 4); k > 0; --k)
        {
            int n = (int)s.size(), i = n ? r.below(n) : 0;
            char c = r.chance(95) ? a[r.below((int)sizeof a - 1)] : (char)r.below(256);
            switch (r.below(5))
            {
            case 0: if (n) s.erase(i, 1); break;
            case 1: s.insert(i, 1, c); break;
            case 2: if (n) s[i] = c; break;
            case 3: if (n) s = r.chance(50) ? s.substr(0, i) : s.substr(i); break;
            default: if (n > 1) std::swap(s[i], s[r.below(n)]); break;
            }
        }
        return s;
    }
    std::string text()
    {
        int k = r.below(20);
        if (k < 12) return ws() + literal() + ws();
        if (k < 18) { std::string s = mutate(literal()); return s; }
        std::string s; for (int n = r.below(12); n > 0; --n) s += k == 18 ? (char)r.below(256) : mutate("[1,2]")[0];
        return s;
    }
};
#endif

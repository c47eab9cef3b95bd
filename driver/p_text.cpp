// Text input (P19): constructors from literals, sessions of extractions from streams.
#include "literals.hpp"
#include "littokens.hpp"
VERIF_MAIN
template<typename T> void text(std::string const& t)
{
    Routes a, b; std::string x = ",\"txt\":" + encs(t);
    a.call('f', [&] { return enc(Fl<T>::text_to_interval(t)); });
    a.call('c', [&] { return enc(I<T>(t)); });
    a.emit("text", 0, Tags<T>::c, "", "", 0, x);
    b.call('f', [&] { return enc(Fl<T>::text_to_decorated_interval(t)); });
    b.call('c', [&] { return enc(DI<T>(t)); });
    b.emit("text", 1, Tags<T>::c, "", "", 0, x);
}
static void any(Rng& r, std::string const& t, bool all)
{
    int k = all ? -1 : r.below(8);
    if (k < 0 || k < 3) text<double>(t);
    if (k < 0 || (k >= 3 && k < 6)) text<float>(t);
    if (k < 0 || k >= 6) text<long double>(t);
}
// a source that breaks behind its text
struct Broken {};
struct Breaking : std::streambuf
{
    std::string s;
    Breaking(std::string const& t) : s(t) { setg(&s[0], &s[0], &s[0] + s.size()); }
    int_type underflow() override { throw Broken(); }
    std::streamsize showmanyc() override { return 0; }
};
struct Step { int k; char F; int skip; };
template<typename T> bool step(std::istream& is, Step s, Rng& r, std::string& steps, std::string& outs)
{
    std::string init, val;
    // the number base of the stream does not matter for intervals
    if (s.k == 2 || r.chance(60)) is >> std::dec; else if (r.chance(50)) is >> std::hex; else is >> std::oct;
    std::ios_base::fmtflags const flags = is.flags();
    bool thrown = false;
#define READ(c) try { is >> c; } catch (std::ios_base::failure const&) { thrown = true; } catch (Broken const&) { thrown = true; }
    if (s.k == 2)
    {
        static Dec const d[] = { Dec::ill, Dec::trv, Dec::def, Dec::dac, Dec::com };
        Dec c = d[r.below(5)]; init = enc((int)c); READ(c); val = enc((int)c);
    }
    else if (s.k == 1) { DI<T> c = obj(rnd_div<T>(r, 8)); init = enc(c); READ(c); val = enc(c); }
    else { I<T> c = obj(rnd_iv<T>(r, 8)); init = enc(c); READ(c); val = enc(c); }
    bool ok = !is.fail();
    // a failure is thrown exactly when the stream was told to, the settings of the stream stay
    bool strange = thrown != !!(is.rdstate() & is.exceptions()) || is.flags() != flags;
    long left = 0;
    if (ok) left = is.rdbuf()->in_avail() < 0 ? 0 : (long)is.rdbuf()->in_avail();
    if (!steps.empty()) { steps += ","; outs += ","; }
    steps += "[" + std::to_string(s.k) + ",\"" + s.F + "\"," + std::to_string(s.skip) + "," + init + "]";
    outs += "[" + std::to_string(strange ? 2 : (int)ok) + "," + val + "," + std::to_string(left) + "]";
    return ok;
}
static void session(Rng& r, std::string const& t)
{
    bool const breaks = r.chance(25);
    std::stringbuf whole(t); Breaking broken(t);
    std::istream is(breaks ? (std::streambuf*)&broken : &whole);
    int n = r.range(1, 5); std::string steps, outs; Routes q;
    bool noskip = false;
    if (r.chance(25)) is.exceptions(r.chance(50) ? std::ios_base::failbit : std::ios_base::failbit | std::ios_base::badbit);
    q.call('s', [&] {
        bool ok = true;
        for (int i = 0; i < n && ok; ++i)
        {
            noskip = r.chance(12);
            if (noskip) is >> std::noskipws; else is >> std::skipws;
            Step s = { r.below(10) < 1 ? 2 : r.below(2), "fddl"[r.below(4)], !noskip };
            ok = s.F == 'f' ? step<float>(is, s, r, steps, outs) : s.F == 'd' ? step<double>(is, s, r, steps, outs) : step<long double>(is, s, r, steps, outs);
        }
        return "[" + outs + "]"; });
    q.emit("session", 0, 'd', "", steps, breaks, ",\"txt\":" + encs(t));
}
// A valid literal of enormous length, read in a child process: 1 if the constructor returned a
// value or raised one of the library's exceptions, 0 if the process died.
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
static void longtext(char c, int n)
{
    std::string t = c == ' ' ? "[" + std::string(n, c) + "1,2]" : "[" + std::string(n, c) + "]";
    fflush(0);
    pid_t p = fork();
    if (p == 0)
    {
        rlimit no = { 0, 0 }; setrlimit(RLIMIT_CORE, &no);
        if (n > 100000) { rlimit st = { 8u << 20, 8u << 20 }; setrlimit(RLIMIT_STACK, &st); }
        try { I<double> x(t); } catch (...) {}
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Routes q;
    q.call('c', [&] { return enc((int)(WIFEXITED(st) && WEXITSTATUS(st) == 0)); });
    q.emit("longtext", 0, 'd', "", "", n, ",\"txt\":[" + std::to_string((int)c) + "]");
}
// every text of the model LitLaws: a head followed by up to n tokens
static void enumerate(Rng& r, LitGroup const& g, std::string const& t, int n, long& i)
{
    if (mine(i++)) any(r, t, false);
    if (n > 0) for (auto& w : g.tokens) enumerate(r, g, t + w, n - 1, i);
}
// every way to spell a number as the lower and the upper bound; every way to spell an uncertain form
static void spellings(Rng& r, Lits& g, long& i)
{
    std::vector<std::string> v;
    static char const* sign[] = { "", "-", "+" };
    static char const* num[] = { "3", "2.", ".25", "1.75", "007.50", "1e2", "1.5E-2", ".5e+1", "12.e-01", "1/3", "7 / 2", "0x1.8p0", "0X.8P1", "0xAp-2", "0XA.8cP+1", "0x1.00000000000000000001p0", "0x0.00000000000000000Fp64",
        "0.1", "1.0000000000000000000001", "340282346638528859811704183484516925441", "1e-400", "2.5e-45", "0", "0.0e5", "0x0p9" };
    for (auto n : num) for (auto s : sign) v.push_back(std::string(s) + n);
    for (auto& a : v) for (auto& b : v)
        if (mine(i++) && (g_cfg.thorough || r.chance(40)))
        {
            std::string t = Lits::about(a) <= Lits::about(b) ? a + "," + b : b + ", " + a;
            any(r, "[" + t + "]" + (r.chance(20) ? "_com" : ""), false);
        }
    for (auto& a : v) { if (mine(i++)) any(r, "[" + a + "]", true); if (mine(i++)) { any(r, "[" + a + ",inf]", false); any(r, "[-INF," + a + "]", false); any(r, "[," + a + "]_dac", false); any(r, "[" + a + ",]_com", false); } }
    static char const* mant[] = { "3", "-3", "+3", "0", "-0", "2.50", "-12.345", ".5", "-.75", "7.", "0.001", "99999999999999999999.5" };
    static char const* rad[] = { "", "0", "1", "25", "?", "123456789012345678901" };
    static char const* dir[] = { "", "u", "d", "U", "D" };
    static char const* ex[] = { "", "e2", "E-3", "e+1", "e038", "e-45", "e400" };
    static char const* dec[] = { "", "_com", "_dac", "_TRV" };
    for (auto m : mant) for (auto q : rad) for (auto d : dir) for (auto e : ex) for (auto c : dec)
        if (mine(i++) && (g_cfg.thorough || r.chance(25))) any(r, std::string(m) + "?" + q + d + e + c, false);
}
// whole numbers next to the limits of machine integers in every place where a literal has one
static void limits(Rng& r, long& i)
{
    static char const* lim[] = { "1", "3", "2147483647", "2147483648", "2147483649", "3221225473", "4294967295", "4294967296", "4294967297", "9007199254740993", "9223372036854775807", "9223372036854775808", "9223372036854775809",
        "13835058055282163713", "18446744073709551615", "18446744073709551616", "18446744073709551617", "27670116110564327425", "170141183460469231731687303715884105728", "340282366920938463463374607431768211457" };
    static char const* hex[] = { "1", "3", "7fffffff", "80000000", "80000001", "C0000001", "ffffffff", "100000000", "100000001", "20000000000001", "7fffffffffffffff", "8000000000000000", "8000000000000001", "c000000000000001", "FFFFFFFFFFFFFFFF", "10000000000000000", "10000000000000001" };
    static char const* sg[] = { "", "-", "", "+" };
    for (std::string a : lim) for (std::string b : lim) if (mine(i++))
    {
        std::string s = sg[r.below(4)];
        any(r, "[" + s + a + "/" + b + "]", false); any(r, s + a + "?" + b + (r.chance(50) ? "" : r.chance(50) ? "u" : "D") + (r.chance(70) ? "" : "e-9"), false);
        any(r, "[" + s + a + "." + b + (r.chance(70) ? "" : "E3") + "]", false);
        std::string x = "-" + a + "/" + b, y = a + "/" + lim[r.below(20)];
        any(r, "[" + (r.chance(50) ? x : "-" + a) + "," + (r.chance(50) ? y : a) + "]", false);
    }
    for (std::string a : hex) for (std::string b : hex) if (mine(i++))
    {
        std::string s = sg[r.below(4)];
        any(r, "[" + s + "0x" + a + "." + b + "p" + std::to_string(r.range(-3, 3)) + "]", false); any(r, "[-0X" + a + "P0,0x" + b + "P-1]", false);
    }
}
void run_property(Rng& r)
{
    Lits g(r);
    if (mine(0)) { longtext('1', 2000); longtext(' ', 2000); longtext('1', 200000); longtext(' ', 200000); }
    static char const* fixed[] = { "", " ", "[", "]", "[]", "[ ]", "[,]", "[ , ]", "[empty]", "[EMPTY]_trv", "[empty]_def", "[entire]", "[entire]_dac", "[entire]_com", "[nai]", "[NaI]", "[nai]_ill", "[nai]_trv", "[nai]x",
        "[+5]", "[+5,+6]", "[-5,+6]_com", "[+1/3]", "[+1/3,+2/3]", "[+0x1p0]", "[+0x1p0,+0x1.8p1]", "+5?", "+5.25?1u", "[1e99999999999]", "[-1e99999999999]", "[1e-99999999999]", "[-1e-99999999999,1]", "[1,1e2147483648]", "[0x1p99999999999]", "[0x1p-99999999999]", "1?e99999999999", "1?e-99999999999", "[0e99999999999]", "[0x0p2147483648]", "[-1e-2147483649,1e0]",
        "[1,2]_com", "[1,2]_ com", "[1,2] _com", "[1,2]_COM", "[1,2]_16", "[1,2]_ill", "[1,2]_0", "[1,2]_", "[1,2", "1,2]", "[1;2]", "[2,1]", "[1,2,3]", "[[1,2]]", "[1 2]", "[1.2.3]", "[.]", "[.e1]", "[1.]", "[.5]", "[1e]", "[1e+]", "[e5]", "[0x]", "[0x.p1]", "[0x1]", "[0x1p]", "[1/0]", "[1/00]", "[1/-2]", "[1/+2]", "[1.0/2]", "[-inf,inf]", "[-inf,-inf]", "[inf,inf]", "[inf]", "[-inf]", "[+inf]", "[-infinity,+infinity]", "[ -inf , ]", "[,inf]", "[1,inf]_com", "[1,inf]_dac", "[1,]_com", "[nan]", "[1,nan]",
        "5?", "5??", "5???", "5??u", "5??d", "5?u", "5?d", "5?ud", "5?0", "5?3e2", "5?e", "5?3e", "5?3e+", "-5?", "-5?3u", "-5.?", ".5?", ".?", "?", "+?", "5", "5.5", "--5?", "5-5?", "5?_com", "5??_com", "5??_dac", "5?3_dac", "5? 3", "5 ?", "0?", "-0.0?", "0.000?1", "1e5?", "1?e400", "1?e400_com", "-1?d4e400", "[1e400]_com", "[1e400,1e401]_def",
        "[1.0000000000000002,1.0000000000000001]", "[0.1]", "[0.1,0.1]", "[-0.1,0.1]", "[0x0.0000000000000000000000000001p-1074]", "[1.7976931348623157e308]", "[1.7976931348623158e308]", "[1.7976931348623159e308]", "[4.9406564584124654e-324]", "[2.4703282292062327e-324]", "[3.4028235e38]", "[1.401298464324817e-45]", "[1.18973149535723176505e+4932]", "[3.6e-4951]", "[-0,0]", "[-0]" };
    long i = 0;
    for (auto p : fixed) if (mine(i++)) { any(r, p, true); session(r, p); }
    std::string z("[1,2]"); z += '\0'; any(r, z, true); z[2] = '\0'; any(r, z, true);
    for (auto& g : lit_groups) for (auto& h : g.heads) enumerate(r, g, h, g_cfg.thorough ? 4 : 3, i);
    spellings(r, g, i);
    limits(r, i);
    for (int n = count(7000, 200000); n > 0; --n) any(r, g.text(), r.chance(10));
    for (int n = count(3000, 100000); n > 0; --n)
    {
        std::string t; int m = r.range(1, 4);
        for (int j = 0; j < m; ++j) { t += r.chance(90) ? g.ws() + g.literal() : g.text(); if (r.chance(60)) t += " "; if (r.chance(10)) t += g.deco().substr(1); }
        session(r, t);
    }
}

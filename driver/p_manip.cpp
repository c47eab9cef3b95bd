// Output streams (P21): replays the behaviours TLC generated from Manip.tla on real streams
// (manipulators applied from two translation units), and lets threads write freely.
#include "settings.hpp"
#include <thread>
#include <memory>
VERIF_MAIN
void set_field2(std::ostream& os, std::string const& f, int v);
typedef p1788::overlapping::overlapping_state Ovl;
struct St { std::string a; int s; std::string f; int v; };
static std::vector<St> parse(std::string const& l)
{
    std::vector<St> v; size_t p = 0;
    while ((p = l.find("[\"", p)) != std::string::npos)
    {
        St x; size_t q = l.find('"', p + 2); x.a = l.substr(p + 2, q - p - 2);
        x.s = atoi(l.c_str() + q + 2);
        size_t a = l.find('"', q + 1), b = l.find('"', a + 1); x.f = l.substr(a + 1, b - a - 1);
        x.v = atoi(l.c_str() + b + 2);
        v.push_back(x); p = b;
    }
    return v;
}
static void std_manip(std::ostream& os, int v)
{
    switch (v)
    {
    case 1: os << std::fixed; break;
    case 2: os << std::scientific; break;
    case 3: os << std::setprecision(3); break;
    case 4: os << std::showpoint; break;
    case 5: os << std::boolalpha << std::left; break;
    case 6: os << std::setfill('*') << std::uppercase; break;
    case 7: os.setf(std::ios_base::fixed | std::ios_base::scientific, std::ios_base::floatfield); break;
    default: os << std::setprecision(17) << std::defaultfloat << std::flush;
    }
}
struct Stream
{
    std::stringbuf buf; std::unique_ptr<std::ostream> os;
    Stream(int kind) { if (kind == 0) os.reset(new std::ostringstream); else if (kind == 1) os.reset(new std::stringstream); else os.reset(new std::ostream(&buf)); }
    std::string take()
    {
        std::string t;
        if (auto p = dynamic_cast<std::ostringstream*>(os.get())) { t = p->str(); p->str(""); }
        else if (auto p = dynamic_cast<std::stringstream*>(os.get())) { t = p->str(); p->str(""); }
        else { t = buf.str(); buf.str(""); }
        return t;
    }
};
static std::string head(St const& s) { return "{\"op\":\"" + s.a + "\",\"a\":\"" + s.a + "\",\"s\":" + std::to_string(s.s) + ",\"f\":\"" + s.f + "\",\"v\":" + std::to_string(s.v); }
// everything else a stream formats with: it must come out of manipulators and insertions unchanged
static std::string fmt(std::ostream& os)
{
    return "[" + std::to_string((long)os.flags()) + "," + std::to_string((long)os.precision()) + "," + std::to_string((int)os.fill()) + "," + std::to_string((long)os.width()) + "]";
}
template<typename O> void put(std::string& out, St const& s, Stream& st, O const& o, std::string const& e, int k, char F)
{
    *st.os << o;
    std::string fm = fmt(*st.os);
    out += head(s) + ",\"fmt\":" + fm + ",\"k\":" + std::to_string(k) + ",\"F\":\"" + F + "\",\"x\":" + e + ",\"good\":" + enc((bool)st.os->good()) + ",\"txt\":" + encs(st.take()) + "}\n"; ++g_events;
}
template<typename T> void put_num(std::string& out, St const& s, Stream& st, Rng& r)
{
    Rep<T> x = r.chance(2) ? bad_rep<T>(r) : rnd_iv<T>(r, r.chance(70) ? 12 : r.chance(60) ? 80 : 0);
    if (r.chance(12)) { static T const b[] = { -INF<T>(), INF<T>() }; x = r.chance(40) ? empty_rep<T>() : Rep<T>(b[0], r.chance(70) ? b[1] : (T)2.5); }
    if (r.chance(45)) put(out, s, st, obj(x), enc(x), 0, Tags<T>::c);
    else { DRep<T> d = r.chance(2) ? bad_drep<T>(r) : DRep<T>(x, std::isnan(x.first) || x.first <= x.second ? rnd_dec(r, x) : Dec::trv); put(out, s, st, obj(d), enc(d), 1, Tags<T>::c); }
}
// the shortest texts: the widths that matter for them are smaller than what surrounds a text
template<typename T> void put_short(std::string& out, St const& s, Stream& st, int k)
{
    Rep<T> x = k % 4 == 0 ? empty_rep<T>() : k % 4 == 1 ? Rep<T>(1, 1) : k % 4 == 2 ? Rep<T>(-INF<T>(), INF<T>()) : Rep<T>(1, 2);
    if (k < 4) { put(out, s, st, obj(x), enc(x), 0, Tags<T>::c); return; }
    DRep<T> d = DRep<T>(x, k % 4 == 0 || k % 4 == 2 ? Dec::trv : k < 8 ? Dec::com : Dec::trv);
    if (k % 4 == 0 && k >= 8) d.second = Dec::ill;
    put(out, s, st, obj(d), enc(d), 1, Tags<T>::c);
}
// value number v of a scenario
static void put_value(std::string& out, St const& s, Stream& st, uint64_t seed)
{
    Rng r(seed * 977 + s.v); int k = s.v % 10;
    static Dec const d[] = { Dec::ill, Dec::trv, Dec::def, Dec::dac, Dec::com };
    if (s.v >= 1000)
    {
        int j = s.v % 12;
        if (s.v < 1100) put_short<double>(out, s, st, j); else if (s.v < 1200) put_short<float>(out, s, st, j); else put_short<long double>(out, s, st, j);
    }
    else if (k == 0) { Dec c = d[r.below(5)]; put(out, s, st, c, enc((int)c), 2, 'd'); }
    else if (k == 1) { int o = r.chance(10) ? 0 : 1 << r.below(16); put(out, s, st, (Ovl)o, enc(o), 3, 'd'); }
    else if (k < 6) put_num<double>(out, s, st, r);
    else if (k < 8) put_num<float>(out, s, st, r);
    else put_num<long double>(out, s, st, r);
    ex::clear();
}
static void step(std::string& out, St const& s, std::unique_ptr<Stream>* w, uint64_t seed, Rng& r)
{
    std::unique_ptr<Stream>& p = w[s.s];
    if (!p) { p.reset(new Stream(r.below(3))); St f = s; f.a = "fresh"; f.f = ""; f.v = 0; out += head(f) + ",\"fmt\":" + fmt(*p->os) + "}\n"; ++g_events; }
    if (s.a == "copy" && !w[s.v]) { w[s.v].reset(new Stream(r.below(3))); St f = s; f.a = "fresh"; f.f = ""; f.s = s.v; f.v = 0; out += head(f) + ",\"fmt\":" + fmt(*w[s.v]->os) + "}\n"; ++g_events; }
    if (s.a == "put") { put_value(out, s, *p, seed); return; }
    if (s.a == "fresh") p.reset(new Stream(r.below(3)));
    else if (s.a == "set") { if (r.chance(40)) set_field2(*p->os, s.f, s.v); else set_field(*p->os, s.f, s.v); }
    else if (s.a == "std") std_manip(*p->os, s.v);
    else if (s.a == "copy") p->os->copyfmt(*w[s.v]->os);
    out += head(s) + ",\"fmt\":" + fmt(*p->os) + "}\n"; ++g_events;
}
static void scenario(std::vector<St> const& v, Rng& r)
{
    std::string out = "{\"op\":\"begin\"}\n"; std::unique_ptr<Stream> w[8];
    uint64_t seed = r.next();
    for (St const& s : v) step(out, s, w, seed, r);
    fputs(out.c_str(), g_out);
}
// random sessions; settings beyond those of the model's bounds
static std::string session(uint64_t seed, int steps)
{
    Rng r(seed); std::string out = "{\"op\":\"begin\"}\n"; std::unique_ptr<Stream> w[8];
    for (int i = 0; i < steps; ++i)
    {
        St s; s.s = r.range(1, 4); s.v = 0; int k = r.below(100);
        if (r.chance(6))
        {   // one stream: a small width or precision, then several short texts
            s.a = "set"; s.f = r.chance(80) ? (r.chance(70) ? "swidth" : "width") : "prec"; s.v = r.range(1, 9); step(out, s, w, seed, r);
            if (r.chance(30)) { s.f = r.chance(50) ? "special" : "nopunct"; s.v = s.f == "special" ? r.below(3) : 1; step(out, s, w, seed, r); }
            s.a = "put"; s.f = "";
            for (int j = r.range(2, 5); j > 0; --j) { s.v = r.chance(15) ? r.range(1, 400) : 1000 + 100 * r.below(3) + r.below(100); step(out, s, w, seed, r); }
            continue;
        }
        if (k < 45) { s.a = "set"; int f = r.below(11); s.f = Sett::name(f); s.v = rnd_field(r, f, false); }
        else if (k < 90) { s.a = "put"; s.v = r.range(1, 400); }
        else if (k < 94) { s.a = "copy"; s.v = r.range(1, 4); }
        else if (k < 98) { s.a = "std"; s.v = r.range(1, 8); }
        else s.a = "fresh";
        step(out, s, w, seed, r);
    }
    return out;
}
void run_property(Rng& r)
{
    std::vector<std::string> lines; char const* path = getenv("SCENARIOS");
    if (path)
    {
        FILE* f = fopen(path, "r"); if (!f) exit(2);
        std::string l; int c;
        while ((c = fgetc(f)) != EOF) { if (c == '\n') { lines.push_back(l); l.clear(); } else l += (char)c; }
        fclose(f);
    }
    for (size_t i = 0; i < lines.size(); ++i) if (mine((long)i)) scenario(parse(lines[i]), r);
    for (int n = count(160, 8000); n > 0; --n) fputs(session(r.next(), 50).c_str(), g_out);
    for (int n = count(16, 200); n > 0; --n)
    {
        int m = 2 + r.below(6); std::vector<std::string> o(m); std::vector<std::thread> th; std::vector<uint64_t> seed;
        for (int t = 0; t < m; ++t) seed.push_back(r.next());
        for (int t = 0; t < m; ++t) th.emplace_back([&, t] { o[t] = session(seed[t], 40); });
        for (auto& t : th) t.join();
        for (auto& t : o) fputs(t.c_str(), g_out);
    }
}

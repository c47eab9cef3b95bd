// Exception machine (P22): replays the behaviours that TLC generated from Exc.tla on real
// threads, one step at a time, and lets threads run freely beside each other.
#include "exc_ops.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
VERIF_MAIN
void exc_do2(std::string const& a, int c, unsigned salt, int& thrown, int& ret);
std::string exc_obs2(int t);

// a thread that performs what it is told
struct Worker
{
    std::mutex m; std::condition_variable cv;
    std::function<void()> job; bool busy = false, stop = false;
    std::thread th;
    Worker() : th([this] { loop(); }) {}
    ~Worker() { { std::lock_guard<std::mutex> g(m); stop = true; } cv.notify_all(); th.join(); }
    void loop()
    {
        std::unique_lock<std::mutex> g(m);
        for (;;)
        {
            cv.wait(g, [this] { return busy || stop; });
            if (stop) return;
            job(); busy = false; cv.notify_all();
        }
    }
    void run(std::function<void()> f)
    {
        std::unique_lock<std::mutex> g(m);
        job = f; busy = true; cv.notify_all();
        cv.wait(g, [this] { return !busy; });
    }
};
struct St { std::string a; int t, c; };
static std::vector<St> parse(std::string const& s)
{
    std::vector<St> v; size_t p = 0;
    while ((p = s.find("[\"", p)) != std::string::npos)
    {
        size_t q = s.find('"', p + 2);
        St x; x.a = s.substr(p + 2, q - p - 2);
        sscanf(s.c_str() + q + 1, ",%d,%d", &x.t, &x.c);
        v.push_back(x); p = q;
    }
    return v;
}
static void event(std::string& out, St const& s, int thrown, int ret, int solo, std::string const& obs)
{
    char b[160];
    snprintf(b, sizeof b, "{\"op\":\"%s\",\"t\":%d,\"c\":%d,\"th\":%d,\"ret\":%d,\"solo\":%d,\"obs\":[", s.a.c_str(), s.t, s.c, thrown, ret, solo);
    out += b; out += obs; out += "]}\n"; ++g_events;
}
static void scenario(std::vector<St> const& v, Rng& r)
{
    std::string out = "{\"op\":\"begin\"}\n";
    std::unique_ptr<Worker> w[9];
    for (St const& s : v)
    {
        int thrown = 0, ret = -2; unsigned salt = (unsigned)r.next();
        bool second = r.chance(40);
        if (s.a == "start") { w[s.t].reset(); w[s.t].reset(new Worker); }
        else w[s.t]->run([&] { if (second) exc_do2(s.a, s.c, salt, thrown, ret); else exc_do(s.a, s.c, salt, thrown, ret); });
        std::string obs;
        for (int t = 1; t <= 8; ++t) if (w[t])
        {
            bool other = r.chance(50);
            w[t]->run([&] { if (!obs.empty()) obs += ","; obs += other ? exc_obs2(t) : exc_obs(t); });
        }
        event(out, s, thrown, ret, 0, obs);
    }
    fputs(out.c_str(), g_out);
}
// threads running freely; each one logs what it sees of its own state
static void free_run(Rng& r, int threads, int steps)
{
    std::vector<std::string> out(threads);
    std::vector<std::thread> th;
    std::vector<uint64_t> seed; for (int t = 0; t < threads; ++t) seed.push_back(r.next());
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t] {
        Rng q(seed[t]); std::string& o = out[t]; int const id = t + 1;
        o = "{\"op\":\"begin\"}\n";
        St s0; s0.a = "start"; s0.t = id; s0.c = 0;
        event(o, s0, 0, -2, 1, exc_obs(id));
        for (int i = 0; i < steps; ++i)
        {
            St s; s.t = id; int k = q.below(10);
            s.a = k < 2 ? "signal" : k == 2 ? "clear" : k == 3 ? "reset" : k == 4 ? "cwd" : k == 5 ? "none" : "op";
            s.c = s.a == "op" ? q.range(1, 24) : s.a == "cwd" ? q.below(16) : s.a == "signal" || s.a == "reset" ? 1 << q.below(4) : 0;
            int thrown, ret; unsigned salt = (unsigned)q.next();
            if (q.chance(50)) exc_do2(s.a, s.c, salt, thrown, ret); else exc_do(s.a, s.c, salt, thrown, ret);
            event(o, s, thrown, ret, 1, q.chance(50) ? exc_obs2(id) : exc_obs(id));
        }
    });
    for (auto& t : th) t.join();
    for (auto& o : out) fputs(o.c_str(), g_out);
}
void run_property(Rng& r)
{
    std::vector<std::string> lines; char const* path = getenv("SCENARIOS");
    if (path)
    {
        FILE* f = fopen(path, "r"); if (!f) exit(2);
        std::string l; int c;
        while ((c = fgetc(f)) != EOF) { if (c == '\n') { lines.push_back(l); l.clear(); } else l += (char)c; }
        fclose(f);
    }
    for (size_t i = 0; i < lines.size(); ++i) if (mine((long)i)) scenario(parse(lines[i]), r);
    int n = count(32, 400);
    for (int i = 0; i < n; ++i) free_run(r, 2 + r.below(7), 60);
}

// C13: buffer protocol between the logger and its storage back-end.
#include "bstore.h"
using namespace lg;
constexpr int mline = __LINE__ + 1;
static void say(xtr::sink& s, const std::string& t) { XTR_LOG(s, "{}", xtr::nocopy(t)); }
static std::string text(size_t n, char c) { return std::string(n, c); }
static void run_(const std::vector<size_t>& sizes, const std::vector<std::string>& msgs, const std::vector<int>& after, int nsinks)
{
    auto rec = std::make_shared<bs::Rec>(); rec->sizes = sizes; std::string want; std::vector<std::string> per(size_t(nsinks) + 0);
    {
        xtr::logger l(std::make_unique<bs::St>(rec), Clock(), xtr::null_command_path); std::vector<xtr::sink> s; s.reserve(size_t(nsinks)); for (int i = 0; i < nsinks; ++i) s.push_back(l.get_sink(std::string(1, char('s' + i))));
        int id = ++Held::next; XTR_LOG(s[0], "{}", Stall{id}); wait_entered(id); bool held = true; want = line('I', "s", "c13.cpp", __LINE__, "stall"); per[0] = want;
        for (size_t i = 0; i < msgs.size(); ++i) {
            size_t k = i % size_t(nsinks); say(s[k], msgs[i]); per[k] += line('I', std::string(1, char('s' + int(k))), "c13.cpp", mline, msgs[i]);
            if (after[i] == 1) { if (held) release(id); held = false; s[k].sync(); if (nsinks == 1) { std::scoped_lock q(rec->m); if (rec->synced != long(rec->out.size()) || rec->cur) rec->viol("sync returned before everything was submitted, flushed and synced"); } }
        }
        if (held) release(id);
    }
    bs::finish(*rec, false);
    if (nsinks == 1) expect(rec->out, per[0], "stream handed to the back-end");
    else { // an interleaving of whole lines
        std::vector<size_t> pos(per.size(), 0); size_t p = 0;
        while (p < rec->out.size()) { size_t e = rec->out.find('\n', p); bool ok = false; if (e != std::string::npos) for (size_t k = 0; k < per.size() && !ok; ++k) if (per[k].compare(pos[k], e + 1 - p, rec->out, p, e + 1 - p) == 0) { pos[k] += e + 1 - p; ok = true; } if (!ok) seq::fail("stream is not an interleaving of the sinks' lines: \"%s\"", esc(rec->out).c_str()); p = e + 1; }
        for (size_t k = 0; k < per.size(); ++k) if (pos[k] != per[k].size()) seq::fail("a line of sink %zu is missing", k);
    }
    seq::outcome(std::to_string(rec->submits));
}
static size_t L0() { return line('I', "s", "c13.cpp", mline, "").size(); }
static std::vector<size_t> pick_sizes(int n)
{
    size_t l = L0(); std::vector<size_t> q = {1, 2, 3, 16, l - 1, l, l + 1, 2 * l - 1, 2 * l, 2 * l + 1, 1000}, r; std::string t;
    if (seq::thorough()) q.insert(q.end(), {4, 5, 7, 31, 32, 33, l + 2, l + 3, 3 * l, 3 * l + 1});
    for (int i = 0; i < n; ++i) { r.push_back(q[size_t(seq::choose(int(q.size())))]); t += std::to_string(r.back()) + " "; }
    seq::note("sizes %s", t.c_str()); return r;
}
static void lengths()
{
    auto sz = pick_sizes(2); int n = 3; std::vector<std::string> m; std::vector<int> after; static const size_t len[] = {0, 1, 2, 60};
    for (int i = 0; i < n; ++i) { size_t x = len[seq::choose(4)]; bool a = seq::flip(); m.push_back(text(x, char('a' + i))); after.push_back(a); seq::note("%zu%s", x, a ? " sync" : ""); }
    run_(sz, m, after, 1);
}
// every buffer size against a fixed stream, and every line length against a fixed buffer
static void sweep()
{
    int which = seq::choose(2); 
    if (which == 0) { size_t a = size_t(1 + seq::choose(seq::thorough() ? 300 : 160)); seq::note("all buffers %zu", a); run_({a}, {"x", "", "yy", text(100, 'z')}, {0, 0, seq::flip(), 0}, 1); }
    else { size_t x = size_t(seq::choose(seq::thorough() ? 1200 : 300)); size_t b = std::vector<size_t>{1, 7, 64, 100, 128}[size_t(seq::choose(5))]; seq::note("line of %zu characters, buffers %zu", x, b); run_({b}, {text(x, 'q'), "t"}, {0, 0}, 1); }
}
static void sinks()
{
    auto sz = pick_sizes(seq::thorough() ? 2 : 1); int n = 4; std::vector<std::string> m; std::vector<int> after; static const size_t len[] = {0, 1, 60}; int ns = 2 + seq::choose(2); seq::note("%d sinks", ns);
    for (int i = 0; i < n; ++i) { size_t x = len[seq::choose(3)]; bool a = seq::flip(); m.push_back(text(x, char('a' + i))); after.push_back(a); seq::note("%zu%s", x, a ? " sync" : ""); }
    run_(sz, m, after, ns);
}
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C13",
        "histories differ in the sizes of the buffers the back-end provides (cycles of two sizes around every multiple of a line length), the lengths of three or four lines, the points of sync and the number of sinks; every buffer size up to 160 (thorough 300) and every line length up to 300 (thorough 1200); messages are queued while the background thread is held up so that batches are deterministic",
        {{"lengths", lengths}, {"sweep", sweep}, {"sinks", sinks}}, {"the back-end does not fail (see C24)"});
}

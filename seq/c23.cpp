// C23: container formatting.
#include "lg.h"
#include <xtr/formatters.hpp>
#include <array>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
using namespace lg;
// a user's own range: only begin and end
template<class T> struct Own { std::shared_ptr<std::vector<T>> v = std::make_shared<std::vector<T>>(); auto begin() const { return v->cbegin(); } auto end() const { return v->cend(); } };
// a user's own map: mapped_type, begin, end, empty
template<class T> struct OwnMap { using mapped_type = T; std::vector<std::pair<int, T>> v; auto begin() const { return v.begin(); } auto end() const { return v.end(); } bool empty() const { return v.empty(); } };
static int g_budget;
// ---- generation ----
template<class T> struct G;
template<class T> T gen() { return G<T>::make(); }
static int size_() { int n = seq::choose(g_budget > 6 ? 2 : 4); g_budget += n; return n; }
template<> struct G<int> { static int make() { static const int v[] = {0, -17, 2000000000}; return v[seq::choose(g_budget > 4 ? 1 : 2) + g_budget % 2]; } };
template<> struct G<bool> { static bool make() { return seq::flip(); } };
template<> struct G<char> { static char make() { return "a}"[seq::choose(2)]; } };
template<> struct G<double> { static double make() { return seq::flip() ? 1.5 : -0.25; } };
template<> struct G<std::string> { static std::string make() { static const char* v[] = {"", "x", "a, b", "{}", "[)", "a longer string that does not fit in place"}; int k = seq::choose(g_budget > 4 ? 2 : 3); return v[(k * 2 + g_budget) % 6]; } };
template<class S, class T> S seqc() { S s; int n = size_(); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(gen<T>()); s.assign(v.begin(), v.end()); return s; }
template<class T> struct G<std::vector<T>> { static auto make() { return seqc<std::vector<T>, T>(); } };
template<class T> struct G<std::list<T>> { static auto make() { return seqc<std::list<T>, T>(); } };
template<class T> struct G<std::deque<T>> { static auto make() { return seqc<std::deque<T>, T>(); } };
template<class T> struct G<std::forward_list<T>> { static auto make() { return seqc<std::forward_list<T>, T>(); } };
template<class S, class T> S setc() { S s; int n = size_(); for (int i = 0; i < n; ++i) s.insert(gen<T>()); return s; }
template<class T> struct G<std::set<T>> { static auto make() { return setc<std::set<T>, T>(); } };
template<class T> struct G<std::multiset<T>> { static auto make() { return setc<std::multiset<T>, T>(); } };
template<class T> struct G<std::unordered_set<T>> { static auto make() { return setc<std::unordered_set<T>, T>(); } };
template<class S, class K, class V> S mapc() { S s; int n = size_(); for (int i = 0; i < n; ++i) { K k = gen<K>(); s.insert({k, gen<V>()}); } return s; }
template<class K, class V> struct G<std::map<K, V>> { static auto make() { return mapc<std::map<K, V>, K, V>(); } };
template<class K, class V> struct G<std::multimap<K, V>> { static auto make() { return mapc<std::multimap<K, V>, K, V>(); } };
template<class K, class V> struct G<std::unordered_map<K, V>> { static auto make() { return mapc<std::unordered_map<K, V>, K, V>(); } };
template<class T, size_t N> struct G<std::array<T, N>> { static auto make() { std::array<T, N> a{}; for (auto& x : a) x = gen<T>(); g_budget += int(N); return a; } };
template<class A, class B> struct G<std::pair<A, B>> { static auto make() { A a = gen<A>(); B b = gen<B>(); return std::pair<A, B>(std::move(a), std::move(b)); } };
template<class... A> struct G<std::tuple<A...>> { static auto make() { return std::tuple<A...>{gen<A>()...}; } };
template<class T> struct G<Own<T>> { static auto make() { Own<T> o; *o.v = gen<std::vector<T>>(); return o; } };
template<class T> struct G<OwnMap<T>> { static auto make() { OwnMap<T> o; int n = size_(); for (int i = 0; i < n; ++i) o.v.push_back({i, gen<T>()}); return o; } };
// ---- reference printer ----
static std::string show(int v) { return std::to_string(v); }
static std::string show(bool v) { return v ? "true" : "false"; }
static std::string show(char v) { return std::string(1, v); }
static std::string show(double v) { return v == 1.5 ? "1.5" : "-0.25"; }
static std::string show(const std::string& v) { return v; }
static std::string join(const std::vector<std::string>& v, const char* a, const char* b) { std::string o = a; for (size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + v[i]; return o + b; }
template<class A, class B> std::string show(const std::pair<A, B>& p);
template<class... A> std::string show(const std::tuple<A...>& t);
template<class C> requires requires(const C& c) { c.begin(); } std::string show(const C& c);
template<class A, class B> std::string show(const std::pair<A, B>& p) { return join({show(p.first), show(p.second)}, "(", ")"); }
template<class... A> std::string show(const std::tuple<A...>& t) { return std::apply([](const auto&... x) { return join({show(x)...}, "(", ")"); }, t); }
template<class C> requires requires(const C& c) { c.begin(); } std::string show(const C& c)
{
    std::vector<std::string> v;
    if constexpr (requires { typename C::mapped_type; }) { for (auto& e : c) v.push_back(show(e.first) + ": " + show(e.second)); return join(v, "{", "}"); }
    else if constexpr (std::is_same_v<C, std::vector<bool>>) { for (bool e : c) v.push_back(show(e)); return join(v, "[", "]"); }
    else { for (auto& e : c) v.push_back(show(e)); return join(v, "[", "]"); }
}
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
template<class T> static void one(const char* name)
{
    g_budget = 0; T v = gen<T>(); int how = seq::choose(4); std::string want = show(v); seq::note("%s %s how%d", name, want.c_str(), how);
    static xtr::sink* s = new xtr::sink(L().get_sink("s")); int ln = 0; z().sync(); take();
    switch (how) {
    case 0: { auto p = std::make_unique<T>(v); ln = __LINE__; XTR_LOG(*s, "{}|{}", *p, 1); p.reset(); break; }
    case 1: { const T c = v; want = show(c); ln = __LINE__; XTR_TRY_LOG(*s, "{}|{}", c, 1); break; }
    case 2: { T c = v; want = show(c); ln = __LINE__; XTR_LOG(*s, "{}|{}", std::move(c), 1); break; }
    case 3: { auto p = std::make_unique<T>(v); std::string t = "str"; ln = __LINE__; XTR_LOG(*s, "{}|{}", *p, t); p.reset(); t = "???"; want += "|str"; break; }
    }
    if (how != 3) want += "|1";
    s->sync(); expect(take(), line('I', "s", "c23.cpp", ln, want), name); seq::outcome(want);
}
#define T(...) {#__VA_ARGS__, [] { one<__VA_ARGS__>(#__VA_ARGS__); }}
using I = int; using S = std::string;
struct Ty { const char* n; void (*f)(); };
static const Ty flat[] = {
    T(std::vector<I>), T(std::vector<S>), T(std::vector<char>), T(std::vector<double>), T(std::vector<bool>), T(std::list<I>), T(std::list<S>), T(std::deque<I>), T(std::forward_list<I>), T(std::forward_list<S>), T(std::set<I>), T(std::set<S>), T(std::multiset<I>), T(std::unordered_set<I>), T(std::unordered_set<S>), T(std::map<I, S>), T(std::map<S, I>), T(std::multimap<I, I>), T(std::unordered_map<S, S>), T(std::array<I, 0>), T(std::array<I, 1>), T(std::array<S, 2>), T(std::array<I, 3>), T(std::pair<I, S>), T(std::pair<S, bool>), T(std::tuple<>), T(std::tuple<I>), T(std::tuple<S>), T(std::tuple<I, S>), T(std::tuple<I, S, char>), T(std::tuple<S, S, bool, double>), T(Own<I>), T(Own<S>), T(OwnMap<S>),
};
static const Ty nested[] = {
    T(std::vector<std::vector<I>>), T(std::vector<std::vector<S>>), T(std::vector<std::pair<I, S>>), T(std::vector<std::tuple<I, S, I>>), T(std::vector<std::map<I, I>>), T(std::list<std::set<S>>), T(std::set<std::pair<I, I>>), T(std::map<I, std::vector<S>>), T(std::map<I, std::map<I, I>>), T(std::map<std::pair<I, I>, S>), T(std::pair<std::vector<I>, S>), T(std::pair<std::pair<I, I>, std::map<I, S>>), T(std::tuple<std::vector<I>, std::map<I, I>>), T(std::tuple<std::tuple<>, std::tuple<I>>), T(std::tuple<std::pair<I, S>, std::list<I>, S>), T(std::array<std::vector<I>, 2>), T(std::array<std::array<I, 2>, 2>), T(std::vector<std::vector<std::vector<I>>>), T(std::unordered_map<I, std::vector<I>>), T(Own<std::vector<I>>), T(std::vector<Own<I>>), T(std::vector<bool>), T(std::map<S, std::tuple<I, S>>), T(std::deque<std::forward_list<S>>),
};
// ---- larger containers: every number of elements up to a bound, and some beyond ----
template<class C> static C sized(int n)
{
    C c;
    auto str = [](int i) { return (i % 3 ? "e" : "a longer string that does not fit in place ") + std::to_string(i); };
    if constexpr (std::is_same_v<C, std::vector<int>> || std::is_same_v<C, std::list<int>> || std::is_same_v<C, std::deque<int>>) for (int i = 0; i < n; ++i) c.push_back(i * 7919 - 5);
    else if constexpr (std::is_same_v<C, std::vector<std::string>> || std::is_same_v<C, std::deque<std::string>>) for (int i = 0; i < n; ++i) c.push_back(str(i));
    else if constexpr (std::is_same_v<C, std::vector<bool>>) for (int i = 0; i < n; ++i) c.push_back(i % 3 == 0);
    else if constexpr (std::is_same_v<C, std::vector<char>>) for (int i = 0; i < n; ++i) c.push_back(char('a' + i % 26));
    else if constexpr (std::is_same_v<C, std::forward_list<int>>) for (int i = 0; i < n; ++i) c.push_front(i);
    else if constexpr (std::is_same_v<C, std::set<int>> || std::is_same_v<C, std::unordered_set<int>>) for (int i = 0; i < n; ++i) c.insert(i * 3);
    else if constexpr (std::is_same_v<C, std::multiset<std::string>>) for (int i = 0; i < n; ++i) c.insert(str(i / 2));
    else if constexpr (std::is_same_v<C, std::map<int, std::string>> || std::is_same_v<C, std::unordered_map<int, std::string>> || std::is_same_v<C, std::multimap<int, std::string>>) for (int i = 0; i < n; ++i) c.insert({i / (std::is_same_v<C, std::multimap<int, std::string>> ? 2 : 1), str(i)});
    else if constexpr (std::is_same_v<C, std::vector<std::vector<int>>>) for (int i = 0; i < n; ++i) c.emplace_back(size_t(i % 5), i);
    else if constexpr (std::is_same_v<C, std::map<std::string, std::vector<std::pair<int, std::string>>>>) for (int i = 0; i < n; ++i) c[str(i)] = std::vector<std::pair<int, std::string>>(size_t((i + 1) % 4), {i, str(i)});
    else if constexpr (std::is_same_v<C, Own<int>>) for (int i = 0; i < n; ++i) c.v->push_back(i);
    else if constexpr (std::is_same_v<C, OwnMap<std::string>>) for (int i = 0; i < n; ++i) c.v.push_back({i, str(i)});
    else static_assert(!sizeof(C));
    return c;
}
template<class C> static void big(int n) { C v = sized<C>(n); const std::string want = show(v); static xtr::sink* s = new xtr::sink(L().get_sink("s")); z().sync(); take(); int ln; { auto p = std::make_unique<C>(v); ln = __LINE__; XTR_LOG(*s, "{}|{}", *p, 1); p.reset(); } s->sync(); expect(take(), line('I', "s", "c23.cpp", ln, want + "|1"), "a large container"); }
// one tuple, pair and array of each of several widths
template<size_t... I> static auto wide(std::index_sequence<I...>) { return std::make_tuple(int(I * 31)...); }
template<size_t N> static void wide_() { auto t = wide(std::make_index_sequence<N>()); std::array<int, N> a{}; for (size_t i = 0; i < N; ++i) a[i] = int(i) - 3; static xtr::sink* s = new xtr::sink(L().get_sink("s")); z().sync(); take(); int ln = __LINE__; XTR_LOG(*s, "{}|{}|{}", t, a, 1); s->sync(); expect(take(), line('I', "s", "c23.cpp", ln, show(t) + "|" + show(a) + "|1"), "a wide tuple"); }
template<size_t... N> static void all_wide(std::index_sequence<N...>) { (wide_<N + 1>(), ...); }
static void sizes()
{
    using BI = void (*)(int);
    static const BI f[] = {big<std::vector<int>>, big<std::list<int>>, big<std::deque<int>>, big<std::vector<std::string>>, big<std::deque<std::string>>, big<std::vector<bool>>, big<std::vector<char>>, big<std::forward_list<int>>, big<std::set<int>>, big<std::unordered_set<int>>, big<std::multiset<std::string>>, big<std::map<int, std::string>>, big<std::unordered_map<int, std::string>>, big<std::multimap<int, std::string>>, big<std::vector<std::vector<int>>>, big<std::map<std::string, std::vector<std::pair<int, std::string>>>>, big<Own<int>>, big<OwnMap<std::string>>};
    static const int more[] = {511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000, 8193, 20000, 65535, 65536, 70000};
    int t = seq::choose(19); int lim = seq::thorough() ? 600 : 300; int k = seq::choose(lim + (seq::thorough() ? 17 : 12)); if (t == 18) { if (k == 0) all_wide(std::make_index_sequence<24>()); return; }
    int n = k < lim ? k : more[k - lim]; seq::note("type%d, %d elements", t, n); f[t](n); seq::outcome(std::to_string(n));
}
static void flat_() { flat[seq::choose(int(sizeof flat / sizeof *flat))].f(); }
static void nested_() { nested[seq::choose(int(sizeof nested / sizeof *nested))].f(); }
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C23",
        "histories differ in container type (34 flat, 24 nested up to three deep), number of elements (0 to 3 at every level), element values and the way the container is passed (object destroyed afterwards, const, moved, together with a string); 18 container types with every number of elements up to 300 (thorough 600) and up to 5000 (70000) and tuples and arrays of 1 to 24 elements",
        {{"flat", flat_}, {"nested", nested_}, {"sizes", sizes}}, {"strings inside containers are shown as they are"});
}

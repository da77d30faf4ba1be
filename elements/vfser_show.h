// Filling and describing the values of vfser.cc (included there)
template <class T, class = void> struct has_mapped : std::false_type {};
template <class T> struct has_mapped<T, std::void_t<typename T::mapped_type>> : std::true_type {};
template <class T, class = void> struct has_hasher : std::false_type {};
template <class T> struct has_hasher<T, std::void_t<typename T::hasher>> : std::true_type {};
#define NUM(T) std::is_arithmetic_v<T>

template <class T>
std::string
hex(const T& x)
{
    std::ostringstream o;
    if constexpr ( std::is_floating_point_v<T> ) {
        char b[64];
        snprintf(b, sizeof b, "%La", (long double)x);
        return b;
    }
    else o << +x;
    return o.str();
}
std::string
esc(const std::string& s)
{
    std::string r = std::to_string(s.size()) + ":";
    char        b[4];
    for ( unsigned char c : s ) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}
// fill
template <class T> std::enable_if_t<std::is_integral_v<T>> put(Rnd& r, T& x) { x = (T)r.any(); if constexpr ( std::is_same_v<T, bool> ) x = r.n(2); }
template <class T> std::enable_if_t<std::is_floating_point_v<T>> put(Rnd& r, T& x) { x = (T)r.d(); }
void put(Rnd& r, std::complex<double>& x) { x = { r.d(), r.d() }; }
void put(Rnd& r, Col& x) { x = std::array<Col, 3> { red, green, blue }[r.n(3)]; }
void put(Rnd& r, Big& x) { x = r.n(2) ? Big::a : Big::b; }
void put(Rnd& r, std::string& x) { x = r.s(); }
void put(Rnd& r, Pod& x) { put(r, x.c); put(r, x.s); for ( auto& f : x.f ) f = r.n(1000); }
void put(Rnd& r, Agg& x) { put(r, x.x); put(r, x.y); put(r, x.z); }
void put(Rnd& r, Two& x) { put(r, x.a); put(r, x.b); }
void put(Rnd&, std::tuple<>&) {}
void put(Rnd& r, SST::UnitAlgebra& x) { x = SST::UnitAlgebra(std::to_string(r.n(1000)) + "." + std::to_string(r.n(100)) + std::array<const char*, 4> { "ns", "GHz", "GB/s", "kB" }[r.n(4)]); }
void put(Rnd& r, SST::RankInfo& x) { x = SST::RankInfo(r.n(100), r.n(100)); }
template <class T, size_t N> void put(Rnd& r, T (&x)[N]);
template <class T, size_t N> void put(Rnd& r, std::array<T, N>& x);
template <class A, class B> void put(Rnd& r, std::pair<A, B>& x) { put(r, x.first); put(r, x.second); }
template <class... T> void put(Rnd& r, std::tuple<T...>& x) { std::apply([&](auto&... y) { (put(r, y), ...); }, x); }
template <class T> void put(Rnd& r, std::optional<T>& x) { x.reset(); if ( r.n(3) ) put(r, x.emplace()); }
template <class T> void put(Rnd& r, std::unique_ptr<T>& x) { x.reset(); if ( r.n(3) ) { x.reset(new T()); put(r, *x); } }
template <class T> void put(Rnd& r, std::shared_ptr<T>& x) { x.reset(); if ( r.n(3) ) { x = std::make_shared<T>(); put(r, *x); } }
template <class T> void put(Rnd& r, T*& x) { x = nullptr; if ( r.n(3) ) { x = new T(); put(r, *x); } }
template <size_t N> void put(Rnd& r, std::bitset<N>& x) { for ( size_t i = 0; i < N; ++i ) x[i] = r.n(2); }
template <class T> void put(Rnd& r, std::atomic<T>& x) { T y; put(r, y); x = y; }
template <class T> void put(Rnd& r, std::valarray<T>& x) { x.resize(r.len()); for ( auto& y : x ) put(r, y); }
template <class T> void put(Rnd& r, std::stack<T>& x) { for ( int k = r.len(); k > 0; --k ) { T y; put(r, y); x.push(y); } }
template <class T> void put(Rnd& r, std::queue<T>& x) { for ( int k = r.len(); k > 0; --k ) { T y; put(r, y); x.push(y); } }
template <class T> void put(Rnd& r, std::priority_queue<T>& x) { for ( int k = r.len(); k > 0; --k ) { T y; put(r, y); x.push(y); } }
template <size_t I, class V> void putv(Rnd& r, V& x) { put(r, x.template emplace<I>()); }
template <class V, size_t... I> void putk(Rnd& r, V& x, size_t k, std::index_sequence<I...>) { ((k == I ? (putv<I>(r, x), 0) : 0), ...); }
void put(Rnd&, std::monostate&) {}
template <class... T> void put(Rnd& r, std::variant<T...>& x)
{
    size_t k = r.n(sizeof...(T));
    putk(r, x, k, std::index_sequence_for<T...>());
}
template <class T> std::enable_if_t<is_cont<T>::value && !std::is_same_v<T, std::string>> put(Rnd& r, T& x)
{
    x = T();
    int n = r.len();
    for ( int i = 0; i < n; ++i ) {
        if constexpr ( std::is_same_v<T, std::forward_list<int>> ) { int y; put(r, y); x.push_front(y); }
        else if constexpr ( std::is_same_v<T, std::multiset<int>> || std::is_same_v<T, std::unordered_multiset<int>> ) x.insert(r.n(5));
        else if constexpr ( std::is_same_v<T, std::multimap<int, int>> ) x.insert({ (int)r.n(4), i });
        else if constexpr ( std::is_same_v<T, std::unordered_multimap<int, std::string>> ) x.insert({ (int)r.n(4), r.s() });
        else if constexpr ( std::is_same_v<T, std::set<int>> || std::is_same_v<T, std::unordered_set<std::string>> ) { typename T::key_type y; put(r, y); x.insert(y); }
        else if constexpr ( std::is_same_v<T, std::vector<bool>> ) x.push_back(r.n(2));
        else if constexpr ( has_mapped<T>::value ) { typename T::key_type y; put(r, y); put(r, x[y]); }
        else { x.emplace_back(); put(r, x.back()); }
    }
}
template <class T, size_t N> void put(Rnd& r, T (&x)[N]) { for ( auto& y : x ) put(r, y); }
template <class T, size_t N> void put(Rnd& r, std::array<T, N>& x) { if constexpr ( N > 0 ) for ( auto& y : x ) put(r, y); }

// show
template <class T> std::enable_if_t<NUM(T), std::string> str(const T& x) { return hex(x); }
template <class T> std::enable_if_t<std::is_enum_v<T>, std::string> str(const T& x) { return std::to_string((std::underlying_type_t<T>)x); }
std::string str(const std::string& x) { return esc(x); }
std::string str(const std::complex<double>& x) { return hex(x.real()) + "," + hex(x.imag()); }
std::string str(const Pod& x) { return hex(x.c) + hex(x.s) + hex(x.f[0]) + hex(x.f[1]) + hex(x.f[2]); }
std::string str(const Agg& x) { return hex(x.x) + hex(x.y) + esc(x.z); }
std::string str(const Two& x) { return hex(x.a) + esc(x.b); }
std::string str(const std::tuple<>&) { return ""; }
std::string str(const std::monostate&) { return "m"; }
std::string str(const SST::UnitAlgebra& x) { return x.toString(); }
std::string str(const SST::RankInfo& x) { return std::to_string(x.rank) + "." + std::to_string(x.thread); }
template <class T, size_t N> std::string str(const T (&x)[N]);
template <class T, size_t N> std::string str(const std::array<T, N>& x);
template <class A, class B> std::string str(const std::pair<A, B>& x);
template <class T> std::string str(const std::optional<T>& x);
template <class T> std::string str(const std::unique_ptr<T>& x);
template <class T> std::string str(const std::shared_ptr<T>& x);
template <class... T> std::string str(const std::variant<T...>& x);
template <class T> std::enable_if_t<is_cont<T>::value && !std::is_same_v<T, std::string>, std::string> str(const T& x);
template <class... T> std::string str(const std::tuple<T...>& x) { std::string s = "("; std::apply([&](auto&... y) { ((s += str(y) + ","), ...); }, x); return s + ")"; }
template <class T> std::string str(T* const& x) { return x ? "*" + str(*x) : "null"; }
template <size_t N> std::string str(const std::bitset<N>& x) { return x.to_string(); }
template <class T> std::string str(const std::atomic<T>& x) { return str(x.load()); }
template <class T> std::string str(const std::valarray<T>& x) { std::string s = "["; for ( auto& y : x ) s += str(y) + ","; return s + "]"; }
template <class T> std::string str(std::stack<T> x) { std::string s = "["; while ( !x.empty() ) { s += str(x.top()) + ","; x.pop(); } return s; }
template <class T> std::string str(std::queue<T> x) { std::string s = "["; while ( !x.empty() ) { s += str(x.front()) + ","; x.pop(); } return s; }
template <class T> std::string str(std::priority_queue<T> x) { std::string s = "["; while ( !x.empty() ) { s += str(x.top()) + ","; x.pop(); } return s; }
template <class A, class B> std::string str(const std::pair<A, B>& x) { return "<" + str(x.first) + "," + str(x.second) + ">"; }
template <class T> std::string str(const std::optional<T>& x) { return x ? "some " + str(*x) : "none"; }
template <class T> std::string str(const std::unique_ptr<T>& x) { return x ? "*" + str(*x) : "null"; }
template <class T> std::string str(const std::shared_ptr<T>& x) { return x ? "*" + str(*x) : "null"; }
template <class... T> std::string str(const std::variant<T...>& x) { return std::to_string(x.index()) + "=" + std::visit([](auto& y) { return str(y); }, x); }
template <class T> std::enable_if_t<is_cont<T>::value && !std::is_same_v<T, std::string>, std::string> str(const T& x)
{
    std::vector<std::string> v;
    for ( auto&& y : x ) {
        if constexpr ( std::is_same_v<typename T::value_type, bool> ) v.push_back(y ? "1" : "0");
        else v.push_back(str(y));
    }
    if constexpr ( has_hasher<T>::value ) std::sort(v.begin(), v.end()); // no order promised
    std::string s = "[" + std::to_string(v.size()) + " ";
    for ( auto& y : v ) s += y + ",";
    return s + "]";
}
template <class T, size_t N> std::string str(const T (&x)[N]) { std::string s = "["; for ( auto& y : x ) s += str(y) + ","; return s + "]"; }
template <class T, size_t N> std::string str(const std::array<T, N>& x) { std::string s = "["; if constexpr ( N > 0 ) for ( auto& y : x ) s += str(y) + ","; return s + "]"; }

void
fill(Rnd& r, Vals& v)
{
    v.each([&](const char*, auto& m) { put(r, m); });
    v.uan = r.n(3) ? r.n(6) : 0;
    v.ua.reset(new int[v.uan]);
    for ( size_t i = 0; i < v.uan; ++i ) put(r, v.ua[i]);
    v.uasn = r.n(3);
    v.uas.reset(new std::string[v.uasn]);
    for ( size_t i = 0; i < v.uasn; ++i ) put(r, v.uas[i]);
    v.pan = 1 + r.n(400);
    v.pa  = new int[v.pan];
    for ( int i = 0; i < v.pan; ++i ) put(r, v.pa[i]);
    v.psn = 1 + r.n(4);
    v.ps  = new std::string[v.psn];
    for ( int i = 0; i < v.psn; ++i ) put(r, v.ps[i]);
    v.bfn = 1 + r.n(5000);
    v.bf  = new char[v.bfn];
    for ( size_t i = 0; i < v.bfn; ++i ) put(r, ((char*)v.bf)[i]);
    v.san = r.n(4);
    v.sa  = std::shared_ptr<int[]>(new int[v.san]());
    for ( size_t i = 0; i < v.san; ++i ) put(r, v.sa[i]);
    v.wv = v.spv;
    if ( v.par ) v.sal = std::shared_ptr<std::string>(v.par, r.n(4) ? &v.par->b : nullptr);
}

json
describe(Vals& v)
{
    json j = json::array();
    v.each([&](const char* n, auto& m) { j.push_back(std::string(n) + "=" + str(m)); });
    auto arr = [&](const char* n, auto&& p, size_t k) {
        std::string s = std::string(n) + "=" + std::to_string(k) + " ";
        for ( size_t i = 0; i < k; ++i ) s += str(p[i]) + ",";
        j.push_back(s);
    };
    arr("ua", v.ua, v.uan);
    arr("uas", v.uas, v.uasn);
    arr("pa", v.pa, v.pan);
    arr("ps", v.ps, v.psn);
    arr("bf", (char*)v.bf, v.bfn);
    arr("sa", v.sa, v.san);
    j.push_back("sal=" + std::string(!v.sal ? "none" : v.par && v.sal.get() == &v.par->b ? "part" : "other") + std::to_string(v.sal.use_count()));
    j.push_back("wv=" + std::string(v.wv.lock() ? v.wv.lock() == v.spv ? "same" : "other" : "none") + std::to_string(v.spv.use_count()));
    return j;
}

//@prop: C20
//@tus: %base
//@bound: strings of capacity 4 (and 3, 6 for the other operand), every length up to the capacity, symbolic non-zero characters, symbolic 64-bit positions and counts
//@job: name=construct defs="-DCONSTRUCT" reach=trunc,fit,null,refused
//@job: name=copy defs="-DCOPY" reach=done
//@job: name=append defs="-DAPPEND" reach=fit,trunc,refused
//@job: name=insert defs="-DINSERT" reach=done,refused
//@job: name=substr defs="-DSUBSTR" reach=done,refused
//@job: name=find defs="-DFIND" reach=found,notfound,last
//@job: name=compare defs="-DCOMPARE" reach=eq,lt,gt
//@job: name=access defs="-DACCESS" reach=ok,fatal:oob,raw,fatal:rawoob
//@job: name=hist defs="-DHIST -DNOPS=3" reach=done
//@job: name=hist_long defs="-DHIST -DNOPS=4" reach=done tier=thorough
#include "symx.h"
#include "iox/string.hpp"
using namespace iox;
struct Mod { uint64_t n{0}; char c[16]{}; }; // oracle: plain character sequence
template <uint64_t N> static void same(const string<N>& s, const Mod& m, const char* what) { CHECK(s.size() == m.n && m.n <= N, what); for (uint64_t i = 0; i < m.n; i++) CHECK(s.c_str()[i] == m.c[i], what); CHECK(s.c_str()[m.n] == 0, "terminated"); CHECK(s.empty() == (m.n == 0) && s.capacity() == N, "size and capacity"); }
static char ch(const char* n) { char c = static_cast<char>(symx_u8(n)); symx_assume(c != 0); return c; }
static Mod sym(uint64_t max, const char* n) { Mod m; m.n = symx_concrete(symx_range(n, 0, max)); for (uint64_t i = 0; i < m.n; i++) m.c[i] = ch("c"); return m; }
template <uint64_t N> static string<N> mk(const Mod& m) { return string<N>(TruncateToCapacity, m.c, m.n); }
#if defined(CONSTRUCT)
void symx_main() { Mod m = sym(7, "n"); switch (symx_concrete(symx_range("op", 0, 5))) {
    case 0: { string<4> s(TruncateToCapacity, m.c); if (m.n > 4) { m.n = 4; symx_reach("trunc"); } else symx_reach("fit"); same(s, m, "truncating construction keeps the first characters"); break; }
    case 1: { uint64_t k = symx_concrete(symx_range("count", 0, 7)); symx_assume(k <= m.n); string<4> s(TruncateToCapacity, m.c, k); m.n = k > 4 ? 4 : k; same(s, m, "truncating construction with length"); break; }
    case 2: { string<4> s("xy"); bool r = s.unsafe_assign(m.c); if (m.n <= 4) { CHECK(r, "assignment that fits"); same(s, m, "assigned"); } else { CHECK(!r, "too long"); symx_reach("refused"); Mod o; o.n = 2; o.c[0] = 'x'; o.c[1] = 'y'; same(s, o, "unchanged when refused"); } break; }
    case 3: { string<4> s(TruncateToCapacity, nullptr); Mod e; same(s, e, "null is empty"); string<4> t("ab"); CHECK(!t.unsafe_assign(nullptr) && !t.unsafe_assign(t.c_str()), "refused"); string<4> u(TruncateToCapacity, nullptr, 3); same(u, e, "null is empty"); symx_reach("null"); break; }
    case 4: { if (m.n > 4) break; char a[5]; for (int i = 0; i < 5; i++) a[i] = m.c[i]; string<4> s(a); same(s, m, "from a character array"); string<4> t("zz"); t = a; same(t, m, "assigned from a character array"); string<4> v; v.assign(a); same(v, m, "assign"); break; }
    default: { char a[5]; for (int i = 0; i < 5; i++) a[i] = ch("a"); string<4> s(a); Mod o; o.n = 4; for (int i = 0; i < 4; i++) o.c[i] = a[i]; same(s, o, "unterminated array is cut"); } } }
#elif defined(COPY)
void symx_main() { Mod m = sym(3, "n"), o = sym(4, "o"); string<3> s = mk<3>(m); string<4> d = mk<4>(o); switch (symx_concrete(symx_range("op", 0, 8))) {
    case 0: { string<3> c(s); same(c, m, "copy"); same(s, m, "source"); break; } case 1: { string<4> c(s); same(c, m, "copy to larger"); break; } case 2: { string<3> c(std::move(s)); same(c, m, "move"); Mod e; same(s, e, "moved from is empty"); break; }
    case 3: d = s; same(d, m, "assign"); same(s, m, "source"); break; case 4: { d = std::move(s); same(d, m, "move assign"); Mod e; same(s, e, "moved from is empty"); break; } case 5: { string<4>& r = d; d = r; same(d, o, "self"); d = std::move(r); same(d, o, "self move"); break; }
    case 6: { string<4> t = d; d = string<4>(t); same(d, o, "same capacity"); string<4> u("abcd"); u = t; same(u, o, "same capacity assign"); string<4> v("abcd"); v = std::move(u); same(v, o, "move assign same capacity"); break; }
    case 7: d.clear(); { Mod e; same(d, e, "clear"); } break; default: d.assign(s); same(d, m, "assign()"); } symx_reach("done"); }
#elif defined(APPEND)
void symx_main() { Mod m = sym(4, "n"), o = sym(6, "o"); string<4> s = mk<4>(m); string<6> t = mk<6>(o); Mod w = m; for (uint64_t i = 0; i < o.n; i++) w.c[w.n++] = o.c[i]; switch (symx_concrete(symx_range("op", 0, 5))) {
    case 0: s.append(TruncateToCapacity, t); if (w.n > 4) { w.n = 4; symx_reach("trunc"); } else symx_reach("fit"); same(s, w, "append"); break;
    case 1: { bool r = s.unsafe_append(t); CHECK(r == (w.n <= 4), "refused exactly when too long"); if (r) same(s, w, "appended"); else { same(s, m, "unchanged"); symx_reach("refused"); } break; }
    case 2: { char c = ch("x"); s.append(TruncateToCapacity, c); if (m.n < 4) m.c[m.n++] = c; same(s, m, "append a character"); break; }
    case 3: { auto r = concatenate(s, t); same(r, w, "concatenate"); CHECK(r.capacity() == 10, "capacity"); auto q = s + t; same(q, w, "+"); char c = ch("x"); auto z = concatenate(s, c, t); Mod y = m; y.c[y.n++] = c; for (uint64_t i = 0; i < o.n; i++) y.c[y.n++] = o.c[i]; same(z, y, "concatenate three"); break; }
    case 4: { char a[4]; uint64_t n = symx_concrete(symx_range("an", 0, 3)); for (uint64_t i = 0; i < 4; i++) a[i] = i < n ? ch("a") : 0; bool r = s.unsafe_append(a); Mod y = m; for (uint64_t i = 0; i < n; i++) y.c[y.n++] = a[i]; CHECK(r == (y.n <= 4), "array append"); if (r) same(s, y, "array appended"); else same(s, m, "unchanged"); break; }
    default: { char c = ch("x"); bool r = s.unsafe_append(c); CHECK(r == (m.n < 4), "character"); if (r) m.c[m.n++] = c; same(s, m, "append char"); } } }
#elif defined(INSERT)
void symx_main() { Mod m = sym(4, "n"), o = sym(3, "o"); string<4> s = mk<4>(m); string<3> t = mk<3>(o); uint64_t pos = symx_u64("pos"), cnt = symx_u64("cnt"); bool ok = cnt <= o.n && pos <= m.n && m.n + cnt <= 4; bool r = s.insert(pos, t, cnt); CHECK(r == ok, "inserted exactly when it fits"); if (!r) { same(s, m, "unchanged"); symx_reach("refused"); return; } pos = symx_concrete(pos); cnt = symx_concrete(cnt); Mod w; for (uint64_t i = 0; i < pos; i++) w.c[w.n++] = m.c[i]; for (uint64_t i = 0; i < cnt; i++) w.c[w.n++] = o.c[i]; for (uint64_t i = pos; i < m.n; i++) w.c[w.n++] = m.c[i]; same(s, w, "insert"); symx_reach("done"); }
#elif defined(SUBSTR)
void symx_main() { Mod m = sym(4, "n"); string<4> s = mk<4>(m); uint64_t pos = symx_u64("pos"), cnt = symx_u64("cnt"); auto r = s.substr(pos, cnt); CHECK(r.has_value() == (pos <= m.n), "only from within"); auto q = s.substr(pos); CHECK(q.has_value() == (pos <= m.n), "only from within"); same(s, m, "source unchanged"); if (!r.has_value()) { symx_reach("refused"); return; } pos = symx_concrete(pos); uint64_t n = m.n - pos; Mod w; for (uint64_t i = 0; i < n; i++) w.c[w.n++] = m.c[pos + i]; same(q.value(), w, "rest"); if (cnt < w.n) w.n = symx_concrete(cnt); same(r.value(), w, "substring"); symx_reach("done"); }
#elif defined(FIND)
void symx_main() { Mod m = sym(4, "n"), o = sym(2, "o"); string<4> s = mk<4>(m); string<3> t = mk<3>(o); uint64_t pos = symx_u64("pos"); auto inset = [&](char c) { bool r = false; for (uint64_t i = 0; i < o.n; i++) r |= o.c[i] == c; return r; };
    switch (symx_concrete(symx_range("op", 0, 2))) {
    case 0: { auto r = s.find(t, pos); uint64_t w = 99; for (uint64_t p = 5; p-- > 0;) if (p >= pos && p + o.n <= m.n) { bool e = true; for (uint64_t i = 0; i < o.n; i++) e &= m.c[p + i] == o.c[i]; if (e) w = p; } CHECK(r.has_value() == (w != 99), "found exactly when contained"); if (r.has_value()) { CHECK(r.value() == w, "first occurrence"); symx_reach("found"); } else symx_reach("notfound"); break; }
    case 1: { auto r = s.find_first_of(t, pos); uint64_t w = 99; for (uint64_t p = m.n; p-- > 0;) if (p >= pos && inset(m.c[p])) w = p; CHECK(r.has_value() == (w != 99), "found exactly when one is contained"); if (r.has_value()) CHECK(r.value() == w, "first"); break; }
    default: { auto r = s.find_last_of(t, pos); uint64_t w = 99; for (uint64_t p = 0; p < m.n; p++) if (p <= pos && inset(m.c[p])) w = p; CHECK(r.has_value() == (w != 99), "found exactly when one is contained"); if (r.has_value()) { CHECK(r.value() == w, "last"); symx_reach("last"); } } } }
#elif defined(COMPARE)
void symx_main() { Mod m = sym(3, "n"), o = sym(4, "o"); string<3> s = mk<3>(m); string<4> t = mk<4>(o); int w = 0; for (uint64_t i = 0; i < 4 && w == 0; i++) { unsigned a = i < m.n ? (unsigned char)m.c[i] : 0, b = i < o.n ? (unsigned char)o.c[i] : 0; w = a < b ? -1 : a > b ? 1 : 0; }
    int64_t r = s.compare(t); CHECK((r < 0) == (w < 0) && (r > 0) == (w > 0), "lexicographic order"); CHECK((s == t) == (w == 0) && (s != t) == (w != 0) && (s < t) == (w < 0) && (s <= t) == (w <= 0) && (s > t) == (w > 0) && (s >= t) == (w >= 0), "operators"); CHECK((t == s) == (w == 0) && (t < s) == (w > 0) && (t >= s) == (w <= 0), "swapped");
    char a[5]; for (int i = 0; i < 5; i++) a[i] = o.c[i]; CHECK((s == a) == (w == 0) && (s < a) == (w < 0) && (a > s) == (w < 0) && (a != s) == (w != 0), "with character arrays"); if (w == 0) symx_reach("eq"); else if (w < 0) symx_reach("lt"); else symx_reach("gt"); }
#elif defined(ACCESS)
void symx_main() { Mod m = sym(4, "n"); string<4> s = mk<4>(m); if (symx_concrete(symx_bool("raw"))) { uint64_t len = symx_u64("len"); bool good = len <= 4; uint64_t l = good ? symx_concrete(len) : len; char f = ch("f"); if (!good) symx_expect_fatal("rawoob"); s.unsafe_raw_access([&](char* p, const BufferInfo i) -> uint64_t { CHECK(i.used_size == m.n && i.total_size == 5, "buffer info"); if (good) { for (uint64_t k = 0; k < l; k++) p[k] = f; p[l] = 0; } return len; }); CHECK(good, "a length beyond the capacity is refused"); Mod w; w.n = l; for (uint64_t k = 0; k < l; k++) w.c[k] = f; same(s, w, "raw access"); symx_reach("raw"); return; }
    uint64_t pos = symx_u64("pos"); if (pos >= m.n) symx_expect_fatal("oob"); char c = s.at(pos); CHECK(pos < m.n && c == m.c[pos] && s[pos] == c && s.unchecked_at(pos) == c, "character at a position"); symx_reach("ok"); pos = symx_concrete(pos); char n = ch("new"); s.at(pos) = n; m.c[pos] = n; same(s, m, "write"); }
#else
void symx_main() { Mod m; string<4> s; for (int k = 0; k < NOPS; k++) { symx_join(1); Mod o = sym(2, "o"); string<3> t = mk<3>(o); switch (symx_concrete(symx_range("op", 0, 4))) {
    case 0: { bool r = s.unsafe_append(t); CHECK(r == (m.n + o.n <= 4), "append"); if (r) for (uint64_t i = 0; i < o.n; i++) m.c[m.n++] = o.c[i]; break; }
    case 1: { uint64_t p = symx_concrete(symx_range("p", 0, 4)); bool r = s.insert(p, t, o.n); CHECK(r == (p <= m.n && m.n + o.n <= 4), "insert"); if (r) { for (uint64_t i = m.n; i-- > p;) m.c[i + o.n] = m.c[i]; for (uint64_t i = 0; i < o.n; i++) m.c[p + i] = o.c[i]; m.n += o.n; } break; }
    case 2: s.clear(); m.n = 0; break; case 3: s = t; m = o; break; default: if (m.n > 0) { s = s.substr(1).value(); for (uint64_t i = 1; i < m.n; i++) m.c[i - 1] = m.c[i]; m.n--; } } same(s, m, "string equals the reference after every operation"); } symx_reach("done"); }
#endif

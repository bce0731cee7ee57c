//@prop: C23
//@tus: %base iceoryx_hoofs/posix/vocabulary/source/file_name.cpp iceoryx_hoofs/posix/vocabulary/source/file_path.cpp iceoryx_hoofs/posix/vocabulary/source/path.cpp iceoryx_hoofs/posix/vocabulary/source/user_name.cpp iceoryx_hoofs/posix/vocabulary/source/group_name.cpp
//@bound: every text of up to LEN arbitrary non-zero bytes; inserting every text of up to 2 bytes with every count at every position of every valid name of up to 2 bytes (cases where the inserted text alone and the result differ in validity are in the kn_ jobs, see known findings); real capacities (255, 1023, 32), names of the full real capacity with one arbitrary byte at six positions
//@job: name=file defs="-DT=FileName -DVALID=vfile -DLEN=8" reach=ok,chars,content
//@job: name=path defs="-DT=Path -DVALID=vpath -DLEN=8" reach=ok,chars
//@job: name=filepath defs="-DT=FilePath -DVALID=vfilepath -DLEN=5" reach=ok,chars,content
//@job: name=filepath6 defs="-DT=FilePath -DVALID=vfilepath -DLEN=6" reach=ok,chars,content tier=thorough
//@job: name=user defs="-DT=UserName -DVALID=vuser -DLEN=8" reach=ok,chars,content
//@job: name=group defs="-DT=GroupName -DVALID=vuser -DLEN=8" reach=ok,chars,content
//@job: name=dir defs="-DDIRS -DLEN=5" reach=valid,invalid,entry
//@job: name=ins_file defs="-DT=FileName -DVALID=vfile -DINS" reach=ok,chars,position
//@job: name=ins_path defs="-DT=Path -DVALID=vpath -DINS" reach=ok,chars,position
//@job: name=ins_filepath defs="-DT=FilePath -DVALID=vfilepath -DINS" reach=ok,chars,content,position
//@job: name=ins_user defs="-DT=UserName -DVALID=vuser -DINS" reach=ok,chars,content,position
//@job: name=kn_refused defs="-DT=UserName -DVALID=vuser -DINS -DKNOWN=1" reach=
//@job: name=kn_accepted defs="-DT=FilePath -DVALID=vfilepath -DINS -DKNOWN=0" reach=
//@job: name=full defs="-DFULL" reach=full,refused
#include "symx.h"
#include "iox/file_name.hpp"
#include "iox/file_path.hpp"
#include "iox/path.hpp"
#include "iox/user_name.hpp"
#include "iox/group_name.hpp"
#include "iox/detail/path_and_file_verifier.hpp"
using namespace iox;
struct Txt { uint64_t n{0}; char c[16]{}; };
static bool alnum(char c) { return (static_cast<unsigned>(c >= 'a') & (c <= 'z')) | (static_cast<unsigned>(c >= 'A') & (c <= 'Z')) | (static_cast<unsigned>(c >= '0') & (c <= '9')); }
static bool fchar(char c) { return static_cast<unsigned>(alnum(c)) | (c == '-') | (c == '.') | (c == ':') | (c == '_'); }
static bool pchar(char c) { return static_cast<unsigned>(fchar(c)) | (c == '/'); }
static bool uchar(char c) { return (static_cast<unsigned>(c >= 'a') & (c <= 'z')) | (static_cast<unsigned>(c >= '0') & (c <= '9')) | (c == '-'); }
template <typename F> static bool all(const Txt& t, F f) { unsigned r = 1; for (uint64_t i = 0; i < t.n; i++) r &= f(t.c[i]); return r; }
enum { Ok = 0, Chars = 1, Content = 2 };
static bool dots(const Txt& t, uint64_t b, uint64_t e) { uint64_t n = e - b; return (n == 1 && t.c[b] == '.') || (n == 2 && t.c[b] == '.' && t.c[b + 1] == '.'); }
/// one component [b, e): empty and relative ones only where allowed, otherwise no dot at the end
static bool entry(const Txt& t, uint64_t b, uint64_t e, bool last) { if (b == e) return !last; if (dots(t, b, e)) return !last; return t.c[e - 1] != '.'; }
static bool tofile(const Txt& t) { uint64_t b = 0; bool r = true; for (uint64_t i = 0; i <= t.n; i++) if (i == t.n || t.c[i] == '/') { r = r && entry(t, b, i, i == t.n); b = i + 1; } return r; }
static int vfile(const Txt& t) { if (!all(t, fchar)) return Chars; return t.n == 0 || dots(t, 0, t.n) ? Content : Ok; }
static int vpath(const Txt& t) { return all(t, pchar) ? Ok : Chars; }
static int vfilepath(const Txt& t) { if (!all(t, pchar)) return Chars; return tofile(t) ? Ok : Content; }
static int vuser(const Txt& t) { if (!all(t, uchar)) return Chars; return t.n == 0 || t.c[0] == '-' || (t.c[0] >= '0' && t.c[0] <= '9') ? Content : Ok; }
static Txt sym(uint64_t max, const char* n) { Txt t; t.n = symx_concrete(symx_range(n, 0, max)); for (uint64_t i = 0; i < t.n; i++) { t.c[i] = static_cast<char>(symx_u8("c")); symx_assume(t.c[i] != 0); } return t; }
template <uint64_t N> static string<N> str(const Txt& t) { return string<N>(TruncateToCapacity, t.c, t.n); }
template <typename S> static void same(const S& s, const Txt& t, const char* what) { CHECK(s.size() == t.n && s.as_string().size() == t.n, what); for (uint64_t i = 0; i < t.n; i++) CHECK(s.as_string().c_str()[i] == t.c[i], what); }
static void code(int want, SemanticStringError e) { CHECK(e == (want == Chars ? SemanticStringError::ContainsInvalidCharacters : SemanticStringError::ContainsInvalidContent), "the error tells the reason"); symx_reach(want == Chars ? "chars" : "content"); }
#if defined(DIRS)
void symx_main() { Txt t = sym(LEN, "n"); auto s = str<LEN>(t); unsigned f = all(t, fchar), p = all(t, pchar);
    switch (symx_concrete(symx_range("fn", 0, 4))) {
    case 0: { bool w = t.n > 0 && p; if (w) { uint64_t b = 0; for (uint64_t i = 0; i <= t.n; i++) if (i == t.n || t.c[i] == '/') { w = w && (entry(t, b, i, false)); b = i + 1; } } CHECK(detail::isValidPathToDirectory(s) == w, "path to a directory"); symx_reach(w ? "valid" : "invalid"); break; }
    case 1: CHECK(detail::isValidPathToFile(s) == (p && tofile(t)), "path to a file"); break;
    case 2: CHECK(detail::isValidFileName(s) == (f && entry(t, 0, t.n, true)), "file name"); break;
    case 3: { bool acc = symx_concrete(symx_bool("accept")); bool w = dots(t, 0, t.n) ? acc : (f && (t.n == 0 || t.c[t.n - 1] != '.')); CHECK(detail::isValidPathEntry(s, acc ? detail::RelativePathComponents::Accept : detail::RelativePathComponents::Reject) == w, "path entry"); symx_reach("entry"); break; }
    default: CHECK(detail::doesEndWithPathSeparator(s) == (t.n > 0 && t.c[t.n - 1] == '/'), "ends with a separator"); } }
#elif defined(FULL)
template <typename S, typename F> static void go(F valid) { constexpr uint64_t L = S::capacity(); string<L> s; const uint64_t ps[] = {0, 1, 15, L / 2, L - 2, L - 1}; uint64_t at = ps[symx_concrete(symx_range("at", 0, 5))]; char c = static_cast<char>(symx_u8("c")); symx_assume(c != 0); s.unsafe_raw_access([&](char* p, const BufferInfo) -> uint64_t { for (uint64_t i = 0; i < L; i++) p[i] = i == at ? c : 'a'; p[L] = 0; return L; }); auto r = S::create(s); CHECK(r.has_value() == valid(c, at, L), "a name of maximum length is accepted exactly when valid"); if (!r.has_value()) { symx_reach("refused"); return; } CHECK(r->size() == L && r->as_string() == s, "a name of maximum length"); auto a = r->append(string<4>("b")); CHECK(a.has_error() && a.error() == SemanticStringError::ExceedsMaximumLength && r->as_string() == s, "too long is refused and changes nothing"); string<L + 1> l(s); CHECK(S::create(l).has_error(), "too long"); symx_reach("full"); }
void symx_main() { switch (symx_concrete(symx_range("t", 0, 3))) { case 0: go<FileName>([](char c, uint64_t, uint64_t) { return fchar(c); }); break; case 1: go<Path>([](char c, uint64_t, uint64_t) { return pchar(c); }); break; case 2: go<FilePath>([](char c, uint64_t at, uint64_t n) { return pchar(c) && !(at == n - 1 && (c == '/' || c == '.')); }); break; default: go<UserName>([](char c, uint64_t at, uint64_t) { return uchar(c) && (at != 0 || (c >= 'a' && c <= 'z')); }); } }
#elif defined(INS)
void symx_main() { Txt t = sym(2, "n"); symx_assume(VALID(t) == Ok); auto r = T::create(str<4>(t)); CHECK(r.has_value(), "valid names are accepted"); T s = r.value(); Txt a = sym(2, "m"); bool app = symx_concrete(symx_bool("append")); uint64_t pos = app ? t.n : symx_u64("pos"), cnt = app ? a.n : symx_u64("count"); auto x = app ? s.append(str<4>(a)) : s.insert(pos, str<4>(a), cnt);
    if (pos > t.n || cnt > a.n) { CHECK(x.has_error() && x.error() == SemanticStringError::ExceedsMaximumLength, "outside"); same(s, t, "unchanged"); symx_reach("position"); return; }
    pos = symx_concrete(pos); cnt = symx_concrete(cnt); Txt w; for (uint64_t i = 0; i < pos; i++) w.c[w.n++] = t.c[i]; for (uint64_t i = 0; i < cnt; i++) w.c[w.n++] = a.c[i]; for (uint64_t i = pos; i < t.n; i++) w.c[w.n++] = t.c[i]; int v = VALID(w); bool agree = v == Chars || (VALID(a) == Ok) == (v == Ok);
#if defined(KNOWN)
    symx_assume(!agree && x.has_error() == KNOWN); if (x.has_error()) CHECK(v != Ok, "an insertion is refused only if its result is invalid"); else CHECK(v == Ok, "an insertion is accepted only if its result is valid"); symx_reach("done"); return;
#else
    symx_assume(agree);
#endif
    if (x.has_error()) { CHECK(v != Ok, "an insertion with a valid result is accepted"); same(s, t, "a refused insertion changes nothing"); code(v, x.error()); } else { CHECK(v == Ok, "a name never becomes invalid"); same(s, w, "inserted"); symx_reach("ok"); } }
#else
void symx_main() { Txt t = sym(LEN, "n"); int v = VALID(t); auto r = T::create(str<LEN + 2>(t)); CHECK(r.has_value() == (v == Ok), "accepted exactly when valid"); if (r.has_value()) { same(r.value(), t, "unchanged text"); T c = r.value(); CHECK(c == r.value() && !(c < r.value()) && c == str<LEN>(t), "copy"); symx_reach("ok"); } else code(v, r.error()); }
#endif

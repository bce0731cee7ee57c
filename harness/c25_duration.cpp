//@prop: C25
//@tus: %base iceoryx_hoofs/time/source/duration.cpp
//@bound: every 64-bit second count and every nanosecond part below one second, every 8/16/32/64-bit signed or unsigned source value; multiplication: every duration times 8 fixed factors below 2^32, every number of seconds with 7 fixed nanosecond parts and the 3 at the overflow limit times 9 fixed larger factors; floating point factors not covered
//@job: name=from args="--bvint" defs="-DFROM" reach=neg,sat,exact
//@job: name=small args="--bvint" defs="-DSMALL" reach=done,neg
//@job: name=to args="--bvint" defs="-DTO" reach=sat,exact
//@job: name=addsub defs="-DADDSUB" reach=sum,satsum,diff,satdiff
//@job: name=order defs="-DORDER" reach=lt,eq,gt
//@job: name=posix args="--bvint" defs="-DPOSIX" reach=sat,exact
//@job: name=mulc args="--bvint" defs="-DMULC -DNF=7" reach=zero,sat,exact
//@job: name=mull args="--bvint" defs="-DMULL" reach=zero,sat,exact
#include "symx.h"
#include "iox/duration.hpp"
using namespace iox;
using units::Duration;
constexpr uint64_t G = 1000000000ULL, MAXU = ~0ULL;
static uint64_t sec(const Duration& d) { return d.toSeconds(); }
/// the sub-second part, observed without the conversion under test
static uint32_t nan(const Duration& d) { auto t = (d - Duration::fromSeconds(sec(d))).timespec(units::TimeSpecReference::None); CHECK(t.tv_sec == 0 && t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "the sub-second part is less than a second"); return static_cast<uint32_t>(t.tv_nsec); }
static Duration mk(uint64_t s, uint32_t n) { return Duration::fromSeconds(s) + Duration::fromNanoseconds(n); }
static uint32_t symn(const char* k) { uint32_t n = symx_u32(k); symx_assume(n < G); return n; }
static void is(const Duration& d, uint64_t s, uint32_t n, const char* what) { CHECK(sec(d) == s, what); CHECK(nan(d) == n, what); }
static void ismax(const Duration& d, const char* what) { is(d, MAXU, G - 1, what); CHECK(d == Duration::max(), what); }
#if defined(FROM)
void symx_main() { uint64_t v = symx_u64("v"); int64_t sv = static_cast<int64_t>(v); bool sgn = symx_concrete(symx_bool("signed"));
    uint64_t e = sgn && sv < 0 ? 0 : v; if (sgn && sv < 0) symx_reach("neg");
    switch (symx_concrete(symx_range("unit", 0, 6))) {
    case 0: { Duration d = sgn ? Duration::fromNanoseconds(sv) : Duration::fromNanoseconds(v); uint64_t s = sec(d); uint32_t n = nan(d); CHECK(s <= MAXU / G && s * G + n == e, "nanoseconds"); break; }
    case 1: { Duration d = sgn ? Duration::fromMicroseconds(sv) : Duration::fromMicroseconds(v); uint64_t s = sec(d); uint32_t n = nan(d); CHECK(n % 1000 == 0 && s <= MAXU / 1000000 && s * 1000000 + n / 1000 == e, "microseconds"); break; }
    case 2: { Duration d = sgn ? Duration::fromMilliseconds(sv) : Duration::fromMilliseconds(v); uint64_t s = sec(d); uint32_t n = nan(d); CHECK(n % 1000000 == 0 && s <= MAXU / 1000 && s * 1000 + n / 1000000 == e, "milliseconds"); break; }
    case 3: { Duration d = sgn ? Duration::fromSeconds(sv) : Duration::fromSeconds(v); is(d, e, 0, "seconds"); break; }
    default: { uint64_t u = 60; Duration d = Duration::zero(); if (symx_concrete(symx_range("u", 0, 2)) == 0) d = sgn ? Duration::fromMinutes(sv) : Duration::fromMinutes(v); else if (symx_concrete(symx_bool("h"))) { u = 3600; d = sgn ? Duration::fromHours(sv) : Duration::fromHours(v); } else { u = 86400; d = sgn ? Duration::fromDays(sv) : Duration::fromDays(v); }
        if (e > MAXU / u) { ismax(d, "too large a value saturates"); symx_reach("sat"); } else { is(d, e * u, 0, "minutes, hours, days"); symx_reach("exact"); } } } }
#elif defined(SMALL)
template <typename T> static void go(T v) { uint64_t e = v < 0 ? 0 : static_cast<uint64_t>(v); if (v < 0) symx_reach("neg"); is(Duration::fromSeconds(v), e, 0, "seconds"); is(Duration::fromMinutes(v), e * 60, 0, "minutes"); is(Duration::fromHours(v), e * 3600, 0, "hours"); is(Duration::fromDays(v), e * 86400, 0, "days");
    Duration d = Duration::fromMilliseconds(v); CHECK(sec(d) * 1000 + nan(d) / 1000000 == e && nan(d) % 1000000 == 0, "milliseconds"); d = Duration::fromMicroseconds(v); CHECK(sec(d) * 1000000 + nan(d) / 1000 == e && nan(d) % 1000 == 0, "microseconds"); d = Duration::fromNanoseconds(v); CHECK(sec(d) * G + nan(d) == e, "nanoseconds"); symx_reach("done"); }
void symx_main() { uint64_t v = symx_u64("v"); switch (symx_concrete(symx_range("type", 0, 5))) { case 0: go(static_cast<int8_t>(v)); break; case 1: go(static_cast<uint8_t>(v)); break; case 2: go(static_cast<int16_t>(v)); break; case 3: go(static_cast<uint16_t>(v)); break; case 4: go(static_cast<int32_t>(v)); break; default: go(static_cast<uint32_t>(v)); } }
#elif defined(TO)
void symx_main() { uint64_t s = symx_u64("s"); uint32_t n = symn("n"); Duration d = mk(s, n); is(d, s, n, "constructed");
    switch (symx_concrete(symx_range("unit", 0, 5))) {
    case 0: { uint64_t r = d.toNanoseconds(); bool fits = s < MAXU / G || (s == MAXU / G && n <= MAXU % G); if (fits) { CHECK(r == s * G + n, "nanoseconds"); symx_reach("exact"); } else { CHECK(r == MAXU, "saturated nanoseconds"); symx_reach("sat"); } break; }
    case 1: { uint64_t r = d.toMicroseconds(); uint64_t k = 1000000, q = n / 1000; bool fits = s < MAXU / k || (s == MAXU / k && q <= MAXU % k); if (fits) CHECK(r == s * k + q, "microseconds"); else CHECK(r == MAXU, "saturated microseconds"); break; }
    case 2: { uint64_t r = d.toMilliseconds(); uint64_t k = 1000, q = n / 1000000; bool fits = s < MAXU / k || (s == MAXU / k && q <= MAXU % k); if (fits) CHECK(r == s * k + q, "milliseconds"); else CHECK(r == MAXU, "saturated milliseconds"); break; }
    case 3: { uint64_t r = d.toMinutes(); CHECK(r <= MAXU / 60 && r * 60 <= s && s - r * 60 < 60, "minutes"); break; }
    case 4: { uint64_t r = d.toHours(); CHECK(r <= MAXU / 3600 && r * 3600 <= s && s - r * 3600 < 3600, "hours"); break; }
    default: { uint64_t r = d.toDays(); CHECK(r <= MAXU / 86400 && r * 86400 <= s && s - r * 86400 < 86400, "days"); } } }
#elif defined(ADDSUB)
void symx_main() { uint64_t s = symx_u64("s"), t = symx_u64("t"); uint32_t n = symn("n"), m = symn("m"); Duration a = mk(s, n), b = mk(t, m); is(a, s, n, "constructed"); is(b, t, m, "constructed"); bool eq = symx_concrete(symx_bool("inplace")); Duration r = a;
    if (symx_concrete(symx_bool("add"))) { if (eq) r += b; else r = a + b; uint64_t c = n + m >= G ? 1 : 0; uint32_t w = static_cast<uint32_t>(n + m - c * G); uint64_t x = s + t, y = x + c; bool ov = x < s || y < x; if (ov) { ismax(r, "a sum beyond the largest duration saturates"); symx_reach("satsum"); } else { is(r, y, w, "sum"); symx_reach("sum"); } }
    else { if (eq) r -= b; else r = a - b; bool less = s < t || (s == t && n < m); if (less) { is(r, 0, 0, "a negative difference is zero"); symx_reach("satdiff"); } else { uint64_t br = n < m ? 1 : 0; is(r, s - t - br, static_cast<uint32_t>(n + br * G - m), "difference"); symx_reach("diff"); } } is(b, t, m, "operand unchanged"); if (!eq) is(a, s, n, "operand unchanged"); }
#elif defined(ORDER)
void symx_main() { uint64_t s = symx_u64("s"), t = symx_u64("t"); uint32_t n = symn("n"), m = symn("m"); Duration a = mk(s, n), b = mk(t, m); bool lt = s < t || (s == t && n < m), eq = s == t && n == m; CHECK((a < b) == lt, "<"); CHECK((a == b) == eq, "=="); CHECK((a != b) == !eq, "!="); CHECK((a <= b) == (lt || eq), "<="); CHECK((a > b) == (!lt && !eq), ">"); CHECK((a >= b) == !lt, ">="); if (lt) symx_reach("lt"); else if (eq) symx_reach("eq"); else symx_reach("gt"); CHECK(Duration::zero() <= a && a <= Duration::max(), "bounds"); }
#elif defined(POSIX)
void symx_main() { uint64_t s = symx_u64("s"); uint32_t n = symn("n"); Duration d = mk(s, n); auto t = d.timespec(units::TimeSpecReference::None); auto v = d.timeval(); CHECK(t.tv_nsec >= 0 && t.tv_nsec < 1000000000 && v.tv_usec >= 0 && v.tv_usec < 1000000, "normalised");
    if (s > INT64_MAX) { CHECK(t.tv_sec == INT64_MAX && t.tv_nsec == 999999999 && v.tv_sec == INT64_MAX && v.tv_usec == 999999, "saturated"); symx_reach("sat"); } else { CHECK(t.tv_sec == static_cast<int64_t>(s) && t.tv_nsec == n && v.tv_sec == static_cast<int64_t>(s) && v.tv_usec == n / 1000, "converted"); CHECK(Duration(t) == d, "there and back"); Duration e(v); CHECK(sec(e) == s && nan(e) == n - n % 1000, "timeval there and back"); struct itimerspec i{}; i.it_interval = t; CHECK(Duration(i) == d, "interval"); symx_reach("exact"); }
    struct timespec u{}; u.tv_sec = static_cast<int64_t>(s >> 1); u.tv_nsec = symx_u32("raw"); Duration w(u); CHECK(sec(w) == (s >> 1) + static_cast<uint32_t>(u.tv_nsec) / G && nan(w) == static_cast<uint32_t>(u.tv_nsec) % G, "unnormalised time"); }
#else
static void want(const Duration& r, uint64_t s, uint64_t f, uint64_t c, uint32_t w) { /* product = s * f + c seconds and w nanoseconds */ bool big = f != 0 && s > (MAXU - c) / f; if (big) { ismax(r, "a product beyond the largest duration saturates"); symx_reach("sat"); } else { is(r, s * f + c, w, "product"); symx_reach("exact"); } if (f == 0) { CHECK(r == Duration::zero(), "times zero"); symx_reach("zero"); } }
static Duration times(const Duration& d, uint64_t f) { switch (symx_concrete(symx_range("form", 0, 2))) { case 0: return d * f; case 1: return f * d; default: { Duration r = d; r *= f; return r; } } }
#if defined(MULC)
void symx_main() { static const uint64_t F[] = {0, 1, 2, 3, 7, 1000, 999999999, 1000000000, 0x80000000ULL, 0xffffffffULL}; uint64_t s = symx_u64("s"); uint32_t n = symn("n"); uint64_t f = F[symx_concrete(symx_range("f", 0, NF))]; Duration r = times(mk(s, n), f); uint64_t p = n * f; want(r, s, f, p / G, static_cast<uint32_t>(p % G)); }
#else
void symx_main() { static const uint64_t F[] = {0, 0x100000000ULL, 0x100000001ULL, 0x123456789abcdefULL, 0x8000000000000001ULL, MAXU - 1, MAXU, 36893488147ULL, 18446744073ULL * 7}; static const uint32_t N[] = {0, 1, 4, 5, 123456789, 500000000, 999999999}; uint64_t s = symx_u64("s"); uint64_t k = symx_concrete(symx_range("n", 0, 9)); uint64_t f = F[symx_concrete(symx_range("f", 0, 8))]; uint64_t lim = (f ? MAXU / f : 1) + k - 8; uint32_t n = k < 7 ? N[k] : static_cast<uint32_t>(lim < G ? lim : G - 1); uint64_t c = 0, w = 0; for (int i = 63; i >= 0; i--) { c *= 2; w *= 2; if (f >> i & 1) w += n; c += w / G; w %= G; } /* n * f by doubling */
    if (symx_concrete(symx_bool("signed")) && static_cast<int64_t>(f) < 0) { CHECK(mk(s, n) * static_cast<int64_t>(f) == Duration::zero(), "times a negative number"); return; } Duration r = times(mk(s, n), f); want(r, s, f, c, static_cast<uint32_t>(w)); }
#endif
#endif

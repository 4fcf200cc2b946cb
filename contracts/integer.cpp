// Property: an integer is the number its digits denote, or an overflow error is reported.
#include "harness.hpp"
#include <lexy/dsl/integer.hpp>
#include <utility>
namespace dsl = lexy::dsl;

static const void* D;
static u64         N;
template <typename E>
static u32 at(u64 i)
{
    constexpr auto w = sizeof(typename E::char_type);
    if constexpr (w == 1)
        return vc_rd8(D, i, N);
    else if constexpr (w == 2)
        return vc_rd16(D, 2 * i, 2 * N);
    else
        return vc_rd32(D, 4 * i, 4 * N);
}
// value of a digit, 99 for everything else
struct b2 { using base = dsl::binary; static constexpr u64 R = 2; static u64 val(u32 c) { return (c == '0') | (c == '1') ? c - '0' : 99; } };
struct b8 { using base = dsl::octal; static constexpr u64 R = 8; static u64 val(u32 c) { return (c >= '0') & (c <= '7') ? c - '0' : 99; } };
struct b10 { using base = dsl::decimal; static constexpr u64 R = 10; static u64 val(u32 c) { return (c >= '0') & (c <= '9') ? c - '0' : 99; } };
struct bl { using base = dsl::hex_lower; static constexpr u64 R = 16;
    static u64 val(u32 c) { return (c >= '0') & (c <= '9') ? c - '0' : (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : 99; } };
struct bu { using base = dsl::hex_upper; static constexpr u64 R = 16;
    static u64 val(u32 c) { return (c >= '0') & (c <= '9') ? c - '0' : (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : 99; } };
struct b16 { using base = dsl::hex; static constexpr u64 R = 16;
    static u64 val(u32 c) { return (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : bu::val(c); } };

// --- the spec: V(i) is the number denoted by the digits among the code units before i, C(i) how many of them
// are significant, F the first code unit where V would exceed the maximum M
template <typename B, u64 M>
struct ispec
{
    static constexpr u64 R = B::R;
    static constexpr u64 digits(u64 m) { u64 r = 0; while (m > 0) { m /= R; ++r; } return r; }
    static constexpr u64 K = digits(M);
    static constexpr u64 lo(u64 k) { u64 r = 1; for (u64 i = 1; i < k; ++i) r *= R; return k == 0 ? 0 : r; }
    static constexpr u64 hi(u64 k) { return k == 0 ? 0 : k == K ? M : lo(k) * R - 1; }
    static bool ovf(u64 v, u64 d) { return (v > M / R) | ((v == M / R) & (d > M % R)); }
    // (no wrap around: only used when the result is at most M)
    static u64  add(u64 v, u64 d) { return M <= 0xFFFFFFFF ? u64(u32(v) * u32(R) + u32(d)) : v * R + d; }
    static u64  cnt(u64 v, u64 c, u64 d) { return (v == 0) & (d == 0) ? 0 : c + 1; }
    template <std::size_t... I>
    static bool inv_(u64 v, u64 c, std::index_sequence<I...>)
    {
        return (c <= K) & (v <= M) & (((c != I) | ((v >= lo(I)) & (v <= hi(I)))) & ...);
    }
    static bool inv(u64 v, u64 c) { return inv_(v, c, std::make_index_sequence<K + 1>{}); }
    // what inv says about the next digit, for less than K - 1, exactly K, no significant digits so far
    static bool use(u64 v, u64 c)
    {
        return (c <= K) & (v <= M) & ((c + 2 > K) | (v < M / R)) & ((c != K) | (v > M / R)) & ((c == 0) == (v == 0));
    }
    // the induction step of: forall i <= F. inv(V(i), C(i))
    static void lemma()
    {
        u64 v = vc_nd64("v"), c = vc_nd64("c"), d = vc_nd64("d");
        vc_assert(inv(0, 0), "lemma: base case");
        vc_assume((d < R) & inv(v, c) & !ovf(v, d));
        vc_assert(inv(add(v, d), cnt(v, c, d)), "lemma: induction step");
        vc_assert(use(v, c), "lemma: consequence");
    }
};
static u64  F;
static u64  V(u64 i) { return vc_fold_at("V", i); }
static u64  C(u64 i) { return vc_fold_at("C", i); }
template <typename S, typename B, typename E>
static bool over_at(u64 i)
{
    u64 d = B::val(at<E>(i));
    return (d < B::R) & S::ovf(V(i), d);
}
template <typename S, typename B, typename E>
static u64 step_v(u64 v, u64 i)
{
    u64 d = B::val(at<E>(i));
    return d < B::R ? S::add(v, d) : v;
}
template <typename S, typename B, typename E>
static u64 step_c(u64 c, u64 i)
{
    u64 d = B::val(at<E>(i));
    return d < B::R ? S::cnt(V(i), c, d) : c;
}
template <typename S>
static bool ax(u64 i) { return (i > F) | S::use(V(i), C(i)); }
static u64  UNIT;
static u64  keep_v(u64 o) { return V(o / UNIT); }
static u64  keep_c(u64 o) { return C(o / UNIT); }
static bool zero_at(u64 o) { return (V(o / UNIT) == 0) & (C(o / UNIT) == 0); }
static bool is_value(u64 o, u64 v) { return V(o / UNIT) == v; }
// begin..end: the code units that are converted
template <typename S, typename B, typename E>
static void define(const void* data, u64 end)
{
    constexpr u64 w = sizeof(typename E::char_type);
    UNIT = w;
#ifdef VC_NATIVE
    vc_fold("V", data, w, 0, 0, end, &step_v<S, B, E>);
#endif
    F = vc_first("F", data, w, 0, end, &over_at<S, B, E>);
    vc_fold("V", data, w, 0, 0, F, &step_v<S, B, E>);
    vc_fold("C", data, w, 0, 0, F, &step_c<S, B, E>);
#ifndef VC_NATIVE
    vc_axiom(data, w, end, &ax<S>); // by induction, see lemma()
#endif
    vc_use_const1(&keep_v);
    vc_use_const1(&keep_c);
    vc_use_inv1(&zero_at);
    vc_use_inv2(&is_value);
}

static u64 T_val, T_n;
struct take
{
    using return_type = void;
    template <typename T>
    constexpr void operator()(T v) const
    {
        if constexpr (std::is_same_v<T, lexy::code_point>)
            T_val = v.value();
        else
            T_val = u64(v);
        ++T_n;
    }
};
template <typename R>
struct prod
{
    static constexpr auto rule  = R::rule_();
    static constexpr auto value = take{};
};
template <typename E>
static arb_input<E> start()
{
    arb_input<E> in;
    D = in.data;
    N = in.n;
    T_n = 0;
    T_val = 0;
    vc_alphabet("in", "01279afF_", 9);
    return in;
}
// outcome of converting the code units before `end`, when `errs` errors have been reported for the digits
static void converted(bool ok, u64 pos, u64 end, u64 errs)
{
    bool over = F < end;
    vc_assert(ok & (pos == end), "an integer consumes its digits and recovers from overflow");
    vc_assert(T_n == 1, "one value");
    vc_assert(G.n_err == errs + (over ? 1 : 0), "overflow is reported iff the number does not fit");
    if (over)
        vc_assert((G.err_pos == 0) & (G.err_end == end), "the overflow error covers the digits");
    else
        vc_assert(T_val == V(end), "the value is the number the digits denote");
}

// --- any token: the conversion looks at all consumed code units and ignores those that are no digits
static u64 TOK_end;
struct any_token : lexyd::token_base<any_token>
{
    template <typename Reader>
    struct tp
    {
        typename Reader::marker end;
        constexpr explicit tp(const Reader& r) : end(r.current()) {}
        bool try_parse(Reader r)
        {
            end = typename Reader::marker{r.position() + TOK_end};
            return true;
        }
        template <typename Context>
        constexpr void report_error(Context&, const Reader&) {}
    };
};
template <typename T, typename B>
struct r_any { static constexpr auto rule_() { return dsl::integer<T, typename B::base>(any_token{}); } };
template <typename T, typename B, u64 M, typename E>
static void any_unit()
{
    auto in = start<E>();
    TOK_end = vc_nd64("tok_end");
    vc_range("tok_end", 0, 14);
    vc_assume(TOK_end <= in.n);
    vc_track(TOK_end);
    if (sizeof(typename E::char_type) > 1)
        vc_track(TOK_end * sizeof(typename E::char_type));
    using S = ispec<B, M>;
    define<S, B, E>(in.data, TOK_end);
    auto reader = in.reader();
    auto r      = run<prod<r_any<T, B>>>(reader);
    converted(r.ok, off(reader.position()), TOK_end, 0);
    vc_cover(F < TOK_end, "overflow");
    vc_cover(F == TOK_end, "no overflow");
}
// --- digits<Base>
template <typename B, typename E>
static bool non(u64 i) { return B::val(at<E>(i)) >= B::R; }
template <typename B, typename E>
static bool significant(u64 i) { return at<E>(i) != '0'; }
template <typename T, typename B>
struct r_dig { static constexpr auto rule_() { return dsl::integer<T, typename B::base>; } };
template <typename T, typename B>
struct r_nz { static constexpr auto rule_() { return dsl::integer<T>(dsl::digits<typename B::base>.no_leading_zero()); } };
template <typename T, typename B, u64 M, typename E, template <typename, typename> class R = r_dig, bool NZ = false>
static void dig_unit()
{
    auto in = start<E>();
    u64  e  = vc_first("E", in.data, sizeof(typename E::char_type), 0, in.n, &non<B, E>);
    using S = ispec<B, M>;
    define<S, B, E>(in.data, e);
    u64 z = vc_first("Z", in.data, sizeof(typename E::char_type), 0, e, &significant<B, E>);
    auto reader = in.reader();
    auto r      = run<prod<R<T, B>>>(reader);
    // (looking at the code unit after the maximal number of significant digits makes its axioms available)
    (void)in.at(z + S::K);
    if (e == 0)
        vc_assert(!r.ok & (G.n_err == 1) & (T_n == 0) & (off(reader.position()) == 0), "needs a digit");
    else if (NZ)
        converted(r.ok, off(reader.position()), e, (e > 1) & (in.at(0) == '0') ? 1 : 0);
    else
        converted(r.ok, off(reader.position()), e, 0);
}
// --- n digits
template <typename T, typename B, u64 K>
struct r_n { static constexpr auto rule_() { return dsl::integer<T>(dsl::n_digits<K, typename B::base>); } };
template <u64 K, typename B>
struct r_cp { static constexpr auto rule_() { return dsl::code_point_id<K, typename B::base>; } };
template <typename Enc, u64 K, typename B>
struct r_cu { static constexpr auto rule_() { return dsl::code_unit_id<Enc, K, typename B::base>; } };
template <typename R, typename B, u64 M, u64 K, typename E>
static void n_unit()
{
    auto in = start<E>();
    u64  e  = vc_first("E", in.data, sizeof(typename E::char_type), 0, in.n < K ? in.n : K, &non<B, E>);
    using S = ispec<B, M>;
    define<S, B, E>(in.data, e);
    u64 z = vc_first("Z", in.data, sizeof(typename E::char_type), 0, e, &significant<B, E>);
    auto reader = in.reader();
    auto r      = run<prod<R>>(reader);
    (void)in.at(z + S::K);
    // fewer digits than required: an error, but what is there is converted
    if (e == 0)
        vc_assert(!r.ok & (G.n_err == 1) & (T_n == 0) & (off(reader.position()) == 0), "needs a digit");
    else
        converted(r.ok, off(reader.position()), e, e < K ? 1 : 0);
}
#define L(name, B, M) VU(lemma_##name) { ispec<B, M>::lemma(); }
#if PART == 0
#define ANY(name, T, B, M, E) L(name, B, u64(M)) VU(any_##name) { any_unit<T, B, u64(M), lexy::E>(); }
using bd42 = lexy::bounded<unsigned char, 42>;
using bd255 = lexy::bounded<int, 255>;
using bd100 = lexy::bounded<unsigned, 100>;
ANY(u8, unsigned char, b10, 255, utf8_encoding)
ANY(i8, signed char, b10, 127, utf8_encoding)
ANY(u16, unsigned short, b10, 65535, utf8_encoding)
ANY(i16, short, b10, 32767, utf8_encoding)
ANY(bd42, bd42, b10, 42, utf8_encoding)
ANY(bd100, bd100, b10, 100, utf8_encoding)
#elif PART == 1
#define DIG(name, T, B, M, E) L(name, B, u64(M)) VU(dig_##name) { dig_unit<T, B, u64(M), lexy::E>(); }
#define NZD(name, T, B, M, E) VU(nz_##name) { dig_unit<T, B, u64(M), lexy::E, r_nz, true>(); }
DIG(u8, unsigned char, b10, 255, utf8_encoding)
DIG(i16, short, b10, 32767, utf8_encoding)
NZD(u8, unsigned char, b10, 255, utf8_encoding)
#elif PART == 2
#define ND(name, R, B, M, K, E) VU(n_##name) { n_unit<R, B, u64(M), K, lexy::E>(); }
using i8_3 = r_n<signed char, b10, 3>;
using u8_2 = r_n<unsigned char, b16, 2>;
using u8_2d = r_n<unsigned char, b10, 2>;
using u16_5 = r_n<unsigned short, b10, 5>;
using cp2 = r_cp<2, b16>;
using cp3o = r_cp<3, b8>;
using cu8 = r_cu<lexy::utf8_encoding, 2, b16>;
using cu8c = r_cu<lexy::utf8_char_encoding, 2, b16>;
using cu8o = r_cu<lexy::utf8_encoding, 3, b8>;
using cu16 = r_cu<lexy::utf16_encoding, 4, b16>;
ND(i8_3, i8_3, b10, 127, 3, utf8_encoding)
ND(u8_2, u8_2, b16, 255, 2, utf8_encoding)
ND(u8_2d, u8_2d, b10, 255, 2, utf8_encoding)
ND(u16_5, u16_5, b10, 65535, 5, utf8_encoding)
ND(cp2, cp2, b16, 0x10FFFF, 2, utf8_encoding)
ND(cp3o, cp3o, b8, 0x10FFFF, 3, utf8_encoding)
ND(cu8, cu8, b16, 255, 2, utf8_encoding)
ND(cu8c, cu8c, b16, 127, 2, utf8_encoding)
ND(cu8o, cu8o, b8, 255, 3, utf8_encoding)
ND(cu16, cu16, b16, 65535, 4, utf8_encoding)
#elif PART == 3
// --- one digit, for every integer type: the loops above are the same template for all of them
template <typename T, typename B, u64 M>
static void trait_unit()
{
    using S      = ispec<B, M>;
    using traits = lexy::integer_traits<T>;
    vc_assert(S::K == traits::template max_digit_count<int(B::R)>, "number of digits of the maximum");
    u64 v = vc_nd64("v"), d = vc_nd64("d");
    vc_assume((v <= M) & (d < B::R));
    typename traits::type val;
    if constexpr (std::is_same_v<T, lexy::code_point>)
        val = lexy::code_point(char32_t(v));
    else
        val = typename traits::type(v);
    auto get = [&] { if constexpr (std::is_same_v<T, lexy::code_point>) return u64(val.value()); else return u64(val); };
    auto old = val;
    bool ok  = traits::template add_digit_checked<int(B::R)>(val, unsigned(d));
    vc_assert(ok == !S::ovf(v, d), "overflow is detected iff value * radix + digit exceeds the maximum");
    if (ok)
        vc_assert(get() == v * B::R + d, "the digit is appended");
    if (S::ovf(v, d))
        return;
    val = old;
    traits::template add_digit_unchecked<int(B::R)>(val, unsigned(d));
    vc_assert(get() == v * B::R + d, "the digit is appended (unchecked)");
}
#define TR(name, T, B, M) L(name, B, u64(M)) VU(trait_##name) { trait_unit<T, B, u64(M)>(); }
#define TRB(name, T, M) TR(name##_b2, T, b2, M) TR(name##_b8, T, b8, M) TR(name##_b10, T, b10, M) TR(name##_b16, T, b16, M)
using bd42 = lexy::bounded<unsigned char, 42>;
using bd255 = lexy::bounded<int, 255>;
using bd1e9 = lexy::bounded<long long, 1000000000>;
TRB(i8, signed char, 127)
TRB(u8, unsigned char, 255)
TRB(i16, short, 32767)
TRB(u16, unsigned short, 65535)
TRB(i32, int, 2147483647)
TRB(u32, unsigned, 4294967295u)
TRB(i64, long long, 9223372036854775807u)
TRB(u64, unsigned long, 18446744073709551615u)
TRB(cp, lexy::code_point, 0x10FFFF)
TRB(bd42, bd42, 42)
TRB(bd255, bd255, 255)
TRB(bd1e9, bd1e9, 1000000000)
#endif

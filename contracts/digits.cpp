// Property: digit tokens match exactly the digits of their base, maximally.
#include "harness.hpp"
namespace dsl = lexy::dsl;

static const void* D;
static u64         N;
template <typename E>
static u32 at(u64 i)
{
    constexpr auto w = sizeof(typename E::char_type);
    if constexpr (w == 1)
        return vc_rd8(D, i, N);
    else if constexpr (w == 2)
        return vc_rd16(D, 2 * i, 2 * N);
    else
        return vc_rd32(D, 4 * i, 4 * N);
}
static bool in(u32 c, u32 a, u32 b) { return (c >= a) & (c <= b); }
// the digits of each base
struct b2 { using base = dsl::binary; static bool is(u32 c) { return in(c, '0', '1'); } };
struct b8 { using base = dsl::octal; static bool is(u32 c) { return in(c, '0', '7'); } };
struct b10 { using base = dsl::decimal; static bool is(u32 c) { return in(c, '0', '9'); } };
struct bl { using base = dsl::hex_lower; static bool is(u32 c) { return in(c, '0', '9') | in(c, 'a', 'f'); } };
struct bu { using base = dsl::hex_upper; static bool is(u32 c) { return in(c, '0', '9') | in(c, 'A', 'F'); } };
struct b16 { using base = dsl::hex; static bool is(u32 c) { return in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F'); } };

template <typename R>
struct prod
{
    static constexpr auto rule  = R::rule_();
    static constexpr auto value = lexy::noop;
};
template <typename R>
struct prodb
{
    static constexpr auto rule  = dsl::if_(R::rule_());
    static constexpr auto value = lexy::noop;
};
// expected outcome
struct outcome
{
    bool ok;
    u64  end;               // consumed (also on failure)
    u64  err_pos, err_end;
};
template <typename R, typename In>
static void expect(const In& in, outcome o)
{
    auto reader = in.reader();
    if (vc_choose("form", 2) == 0)
    {
        auto r = run<prod<R>>(reader);
        vc_assert(r.ok == o.ok, "matches exactly the digits");
        vc_assert(off(reader.position()) == o.end, "maximal munch");
        vc_assert(G.n_err == (o.ok ? 0 : 1), "error iff it does not match");
        if (o.ok)
            vc_assert((G.n_tok == 1) & (G.tok_begin == 0) & (G.tok_end == o.end), "the token covers the digits");
        else
            vc_assert((G.err_pos == o.err_pos) & (G.err_end == o.err_end), "the error is at the offending code unit");
    }
    else
    {
        auto r = run<prodb<R>>(reader);
        vc_assert(r.ok & (G.n_err == 0), "a branch on digits never fails");
        vc_assert(off(reader.position()) == (o.ok ? o.end : 0), "as a branch, consumes the digits or nothing");
    }
}
template <typename E, template <typename> class In>
static In<E> start()
{
    In<E> in;
    D = in.data;
    N = in.n;
    vc_alphabet("in", "01789afgAFG_:/", 14);
    return in;
}
#define W sizeof(typename E::char_type)

// digits<Base>
template <typename B, typename E>
static bool non(u64 i) { return !B::is(at<E>(i)); }
template <typename B>
struct r_plain { static constexpr auto rule_() { return dsl::digits<typename B::base>; } };
template <typename B>
struct r_nz { static constexpr auto rule_() { return dsl::digits<typename B::base>.no_leading_zero(); } };
template <typename B, typename E, template <typename> class In>
static void plain_unit()
{
    auto in = start<E, In>();
    u64  e  = vc_first("E", in.data, W, 0, in.n, &non<B, E>);
    if (vc_choose("nz", 2) == 0)
        expect<r_plain<B>>(in, {e > 0, e, 0, 0});
    else if ((e > 1) && (in.at(0) == '0'))
        expect<r_nz<B>>(in, {false, 1, 0, 1});
    else
        expect<r_nz<B>>(in, {e > 0, e, 0, 0});
}
template <typename B, typename E, template <typename> class In>
static void light_unit()
{
    auto in     = start<E, In>();
    u64  e      = vc_first("E", in.data, W, 0, in.n, &non<B, E>);
    auto reader = in.reader();
    auto r      = run<prod<r_plain<B>>>(reader);
    vc_assert(r.ok == (e > 0), "matches exactly the digits");
    vc_assert(off(reader.position()) == e, "maximal munch");
}
// digits<Base>.sep(Sep)
static constexpr u32 SEP = '_';
template <typename B, typename E>
static bool sep_end(u64 i)
{
    u32  c    = at<E>(i);
    bool next = (i + 1 < N) && B::is(at<E>(i + 1));
    return !B::is(c) & !((c == SEP) & next);
}
template <typename B>
struct r_sep { static constexpr auto rule_() { return dsl::digits<typename B::base>.sep(dsl::digit_sep_underscore); } };
template <typename B>
struct r_sepnz { static constexpr auto rule_() { return dsl::digits<typename B::base>.sep(dsl::digit_sep_underscore).no_leading_zero(); } };
template <typename B>
struct r_nzsep { static constexpr auto rule_() { return dsl::digits<typename B::base>.no_leading_zero().sep(dsl::ascii::character / dsl::digit<typename B::base>); } };
template <typename B, typename E, template <typename> class In>
static void sep_unit()
{
    auto in    = start<E, In>();
    bool first = (in.n > 0) && B::is(in.at(0));
    u64  e     = vc_first("E", in.data, W, 1, in.n == 0 ? 1 : in.n, &sep_end<B, E>);
    bool bad   = (e < in.n) && (in.at(e) == SEP); // a separator that is not followed by a digit
    u64  z     = vc_choose("nz", 2);
    if (!first)
        z ? expect<r_sepnz<B>>(in, {false, 0, 0, 0}) : expect<r_sep<B>>(in, {false, 0, 0, 0});
    else if (bad)
        z ? expect<r_sepnz<B>>(in, {false, e + 1, e + 1, e + 1}) : expect<r_sep<B>>(in, {false, e + 1, e + 1, e + 1});
    else if (z && (e > 1) && (in.at(0) == '0'))
        expect<r_sepnz<B>>(in, {false, 1, 0, 1});
    else
        z ? expect<r_sepnz<B>>(in, {true, e, 0, 0}) : expect<r_sep<B>>(in, {true, e, 0, 0});
}
template <typename B, typename E, template <typename> class In>
static void lsep_unit()
{
    auto in     = start<E, In>();
    bool first  = (in.n > 0) && B::is(in.at(0));
    u64  e      = vc_first("E", in.data, W, 1, in.n == 0 ? 1 : in.n, &sep_end<B, E>);
    bool bad    = (e < in.n) & (in.at(e) == SEP);
    auto reader = in.reader();
    auto r      = run<prod<r_sep<B>>>(reader);
    vc_assert(r.ok == (first & !bad), "matches exactly the digits");
    vc_assert(off(reader.position()) == (!first ? 0 : bad ? e + 1 : e), "maximal munch");
}
// n_digits<N, Base>
template <typename B, u64 K>
struct r_n { static constexpr auto rule_() { return dsl::n_digits<K, typename B::base>; } };
template <typename B, u64 K>
struct r_ns { static constexpr auto rule_() { return dsl::n_digits<K, typename B::base>.sep(dsl::digit_sep_underscore); } };
template <u64 K, typename B, typename E, template <typename> class In>
static void n_one(const In<E>& in)
{
    u64 sep = vc_choose("sep", 2), pos = 0;
    bool ok = true;
#pragma clang loop unroll(full)
    for (u64 k = 0; k < K; ++k)
        if (ok)
        {
            if (sep && (k > 0) && (pos < in.n) && (in.at(pos) == SEP))
                ++pos;
            if ((pos < in.n) && B::is(in.at(pos)))
                ++pos;
            else
                ok = false;
        }
    sep ? expect<r_ns<B, K>>(in, {ok, pos, pos, pos}) : expect<r_n<B, K>>(in, {ok, pos, pos, pos});
}
template <typename B, typename E, template <typename> class In>
static void n_unit()
{
    auto in = start<E, In>();
    if (vc_choose("k", 2) == 0)
        n_one<2, B>(in);
    else
        n_one<4, B>(in);
}
#define ONE(name, U, ENC, IN)                                                                                          \
    VU(name##_b2) { U<b2, lexy::ENC, IN>(); }                                                                          \
    VU(name##_b8) { U<b8, lexy::ENC, IN>(); }                                                                          \
    VU(name##_b10) { U<b10, lexy::ENC, IN>(); }                                                                        \
    VU(name##_bl) { U<bl, lexy::ENC, IN>(); }                                                                          \
    VU(name##_bu) { U<bu, lexy::ENC, IN>(); }                                                                          \
    VU(name##_b16) { U<b16, lexy::ENC, IN>(); }
#if PART == 0
ONE(plain_utf8, plain_unit, utf8_encoding, arb_input)
ONE(plain_dflt, plain_unit, default_encoding, arb_input)
VU(plain_byte_b16) { plain_unit<b16, lexy::byte_encoding, arb_input>(); }
VU(plain_utf16_b10) { plain_unit<b10, lexy::utf16_encoding, arb_input>(); }
VU(plain_utf16_b16) { plain_unit<b16, lexy::utf16_encoding, arb_input>(); }
VU(plain_utf32_b10) { plain_unit<b10, lexy::utf32_encoding, arb_input>(); }
VU(plain_utf32_b16) { plain_unit<b16, lexy::utf32_encoding, arb_input>(); }
#elif PART == 3
ONE(plain_buf8, light_unit, utf8_encoding, arb_buffer)
ONE(plain_buf32, light_unit, utf32_encoding, arb_buffer)
ONE(plain_bufc, light_unit, utf8_char_encoding, arb_buffer)
VU(nz_buf8_b10) { plain_unit<b10, lexy::utf8_encoding, arb_buffer>(); }
VU(nz_bufa_b8) { plain_unit<b8, lexy::ascii_encoding, arb_buffer>(); }
VU(sep_buf8_b10) { lsep_unit<b10, lexy::utf8_encoding, arb_buffer>(); }
VU(sep_bufc_b2) { lsep_unit<b2, lexy::utf8_char_encoding, arb_buffer>(); }
#elif PART == 1
VU(sep_utf8_b2) { sep_unit<b2, lexy::utf8_encoding, arb_input>(); }
VU(sep_utf8_b10) { sep_unit<b10, lexy::utf8_encoding, arb_input>(); }
VU(sep_utf8_b16) { lsep_unit<b16, lexy::utf8_encoding, arb_input>(); }
VU(sep_utf16_b8) { lsep_unit<b8, lexy::utf16_encoding, arb_input>(); }
#elif PART == 2
VU(n_utf8_b2) { n_unit<b2, lexy::utf8_encoding, arb_input>(); }
VU(n_utf8_b10) { n_unit<b10, lexy::utf8_encoding, arb_input>(); }
VU(n_utf8_b16) { n_unit<b16, lexy::utf8_encoding, arb_input>(); }
VU(n_utf16_b8) { n_unit<b8, lexy::utf16_encoding, arb_input>(); }
VU(n_utf32_bu) { n_unit<bu, lexy::utf32_encoding, arb_input>(); }
// dsl::zero and dsl::digit
struct r_zero { static constexpr auto rule_() { return dsl::zero; } };
VU(zero)
{
    auto in = start<lexy::utf8_encoding, arb_input>();
    bool z  = (in.n > 0) && (in.at(0) == '0');
    expect<r_zero>(in, {z, u64(z), 0, 0});
}
template <typename B>
struct r_digit { static constexpr auto rule_() { return dsl::digit<typename B::base>; } };
template <typename B, typename E, template <typename> class In>
static void digit_unit()
{
    auto in = start<E, In>();
    bool z  = (in.n > 0) && B::is(in.at(0));
    expect<r_digit<B>>(in, {z, u64(z), 0, 0});
}
ONE(digit_utf8, digit_unit, utf8_encoding, arb_input)
ONE(digit_utf16, digit_unit, utf16_encoding, arb_input)
ONE(digit_utf32, digit_unit, utf32_encoding, arb_input)
ONE(digit_byte, digit_unit, byte_encoding, arb_input)
#endif

// Property: a literal matches exactly its spelling, and on a mismatch says where it is.
#include "litspec.hpp"
namespace dsl = lexy::dsl;

// position the reader somewhere: the literal is matched after one arbitrary code unit
template <typename L>
struct prod
{
    static constexpr auto rule  = L::lit();
    static constexpr auto value = lexy::noop;
};
template <typename L, typename In>
static void check(const In& in)
{
    auto          reader = in.reader();
    constexpr u64 m      = len_of(L::str);
    u64           c;
    if constexpr (requires { L::ci; })
        c = common_ci<0, m>(in, 0, L::str);
    else
        c = common<0, m>(in, 0, L::str);
    auto r = run<prod<L>>(reader);
    vc_assert(r.ok == (c == m), "matches iff the input starts with the literal");
    if (r.ok)
    {
        vc_assert((off(reader.position()) == m), "consumes exactly the literal");
        vc_assert((G.n_err == 0) & (G.n_errtok == 0), "no error on success");
        if (m > 0)
            vc_assert((G.n_tok == 1) & (G.tok_begin == 0) & (G.tok_end == m), "the token covers the literal");
    }
    else
    {
        vc_assert((G.n_err == 1) & (G.n_idx_err == 1), "one expected_literal error");
        vc_assert(G.err_pos == 0, "the error is reported at the beginning");
        vc_assert(G.err_index == c, "the error index is the first mismatching code unit");
        vc_assert(G.err_len == m, "the error names the entire literal");
        vc_assert(off(reader.position()) == c, "the common prefix is consumed");
    }
    vc_cover(r.ok, "match");
    if (m > 0)
        vc_cover(!r.ok, "mismatch");
}
#define LITERAL(name, s, expr)                                                                                         \
    struct name                                                                                                        \
    {                                                                                                                  \
        static constexpr auto str = s;                                                                                 \
        static constexpr auto lit() { return expr; }                                                                   \
    };
#define LITERAL_CI(name, s, expr)                                                                                      \
    struct name                                                                                                        \
    {                                                                                                                  \
        static constexpr auto str = s;                                                                                 \
        static constexpr bool ci  = true;                                                                              \
        static constexpr auto lit() { return expr; }                                                                   \
    };
LITERAL(l1, "a", LEXY_LIT("a"))
LITERAL(l1c, "z", dsl::lit_c<'z'>)
LITERAL(l3, "abc", LEXY_LIT("abc"))
LITERAL(l7, "aaabaab", LEXY_LIT("aaabaab"))
LITERAL(l8, "abcdefgh", LEXY_LIT("abcdefgh"))
LITERAL(l9, "abcdefghi", LEXY_LIT("abcdefghi"))
LITERAL(l16, "0123456789abcdef", LEXY_LIT("0123456789abcdef"))
LITERAL(l19, "0123456789abcdefXYZ", LEXY_LIT("0123456789abcdefXYZ"))
LITERAL(l8u, u8"gr\u00fc\u00df dich\u20ac", LEXY_LIT(u8"gr\u00fc\u00df dich\u20ac"))
LITERAL(l16u, u"gr\u00fc\U0001F600x", LEXY_LIT(u"gr\u00fc\U0001F600x"))
LITERAL(l32u, U"gr\u00fc\U0001F600x", LEXY_LIT(U"gr\u00fc\U0001F600x"))
LITERAL(lcp8, u8"\u00e4\u20ac\U0001F600\U000903AB", (dsl::lit_cp<0xE4, 0x20AC, 0x1F600, 0x903AB>))
LITERAL(lcp16, u"\u00e4\u20ac\U0001F600\U000903AB", (dsl::lit_cp<0xE4, 0x20AC, 0x1F600, 0x903AB>))
LITERAL(lcp32, U"\u00e4\u20ac\U0001F600\U000903AB", (dsl::lit_cp<0xE4, 0x20AC, 0x1F600, 0x903AB>))
LITERAL(lb, "\x80\xC1\xFE\x7F", (dsl::lit_b<0x80, 0xC1, 0xFE, 0x7F>))
LITERAL_CI(ci1, "q", dsl::ascii::case_folding(LEXY_LIT("q")))
LITERAL_CI(ci5, "ab[`z", dsl::ascii::case_folding(LEXY_LIT("ab[`z")))
LITERAL_CI(ci9, "abcdefghi", dsl::ascii::case_folding(LEXY_LIT("abcdefghi")))

template <typename E, template <typename> class In, typename... L>
static void cases()
{
    In<E> in;
    u64   which = vc_choose("case", sizeof...(L));
    u64   i     = 0;
    (void)((which == i++ ? (check<L>(in), true) : false) || ...);
}
#define BASIC l1, l1c, l3, l7, l8, l9, l16, l19, ci1, ci5, ci9
#define U(name, E, In, ...) VU(name) { vc_alphabet("in", "abcdefghi0123456789AQZqz[`", 26); cases<E, In, __VA_ARGS__>(); }
U(utf8, lexy::utf8_encoding, arb_input, BASIC, l8u, lcp8)
U(utf8c, lexy::utf8_char_encoding, arb_input, BASIC, lcp8)
U(utf16, lexy::utf16_encoding, arb_input, BASIC, l16u, lcp16)
U(utf32, lexy::utf32_encoding, arb_input, BASIC, l32u, lcp32)
U(ascii, lexy::ascii_encoding, arb_input, BASIC)
U(byte, lexy::byte_encoding, arb_input, BASIC, lb)
U(dflt, lexy::default_encoding, arb_input, BASIC)
U(buf_utf8, lexy::utf8_encoding, arb_buffer, BASIC, l8u, lcp8)
U(buf_utf8c, lexy::utf8_char_encoding, arb_buffer, BASIC, lcp8)
U(buf_utf32, lexy::utf32_encoding, arb_buffer, BASIC, l32u, lcp32)
U(buf_ascii, lexy::ascii_encoding, arb_buffer, BASIC)

// Property: a character class rule matches exactly the code points of its set.
#include "unispec.hpp"
namespace dsl = lexy::dsl;

#define IN(lo, hi) ((cp >= (lo)) & (cp <= (hi)))
#define CC(name, expr, set)                                                                                            \
    struct name                                                                                                        \
    {                                                                                                                  \
        struct prod                                                                                                    \
        {                                                                                                              \
            static constexpr auto rule  = expr;                                                                        \
            static constexpr auto value = lexy::noop;                                                                  \
        };                                                                                                             \
        static bool in(u32 cp) { return set; }                                                                         \
    };

// C locale <ctype.h> definitions
CC(k_control, dsl::ascii::control, IN(0, 0x1F) | (cp == 0x7F))
CC(k_blank, dsl::ascii::blank, (cp == ' ') | (cp == '\t'))
CC(k_newline, dsl::ascii::newline, (cp == '\n') | (cp == '\r'))
CC(k_other_space, dsl::ascii::other_space, (cp == '\f') | (cp == '\v'))
CC(k_space, dsl::ascii::space, (cp == ' ') | IN(9, 13))
CC(k_lower, dsl::ascii::lower, IN('a', 'z'))
CC(k_upper, dsl::ascii::upper, IN('A', 'Z'))
CC(k_alpha, dsl::ascii::alpha, IN('a', 'z') | IN('A', 'Z'))
CC(k_alphau, dsl::ascii::alpha_underscore, IN('a', 'z') | IN('A', 'Z') | (cp == '_'))
CC(k_digit, dsl::ascii::digit, IN('0', '9'))
CC(k_alnum, dsl::ascii::alnum, IN('a', 'z') | IN('A', 'Z') | IN('0', '9'))
CC(k_alpha_digit, dsl::ascii::alpha_digit, IN('a', 'z') | IN('A', 'Z') | IN('0', '9'))
CC(k_word, dsl::ascii::word, IN('a', 'z') | IN('A', 'Z') | IN('0', '9') | (cp == '_'))
CC(k_word2, dsl::ascii::alpha_digit_underscore, IN('a', 'z') | IN('A', 'Z') | IN('0', '9') | (cp == '_'))
CC(k_punct, dsl::ascii::punct, IN(0x21, 0x7E) & !(IN('a', 'z') | IN('A', 'Z') | IN('0', '9')))
CC(k_graph, dsl::ascii::graph, IN(0x21, 0x7E))
CC(k_print, dsl::ascii::print, IN(0x20, 0x7E))
CC(k_char, dsl::ascii::character, cp <= 0x7F)
CC(k_oneof, LEXY_ASCII_ONE_OF("ax_?bc~"), (cp == 'a') | (cp == 'x') | (cp == '_') | (cp == '?') | (cp == 'b') | (cp == 'c') | (cp == '~'))
CC(k_oneof1, LEXY_ASCII_ONE_OF("\x01q"), (cp == 1) | (cp == 'q'))

// abstract classes: an arbitrary set outside ASCII (uninterpreted), a fixed irregular one inside
template <int Id>
struct abs_class
{
    static constexpr auto name = "abs";
    static constexpr bool table(u32 cp)
    {
        return Id == 0 ? cp % 3 == 0 : Id == 1 ? (cp * 7 + 3) % 5 < 2 : Id == 2 ? ((cp >> 2) ^ cp) % 2 == 0 : (cp > 20 && cp < 100);
    }
    static bool in(u32 cp) { return cp <= 0x7F ? table(cp) : vc_uf1_1(Id == 0 ? "clsA" : Id == 1 ? "clsB" : Id == 2 ? "clsC" : "clsD", cp); }
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (__builtin_is_constant_evaluated() || cp.value() <= 0x7F)
            return table(cp.value());
        return in(cp.value());
    }
};
constexpr auto A = dsl::code_point.if_<abs_class<0>>();
constexpr auto B = dsl::code_point.if_<abs_class<1>>();
constexpr auto C = dsl::code_point.if_<abs_class<2>>();
constexpr auto D = dsl::code_point.if_<abs_class<3>>();
static bool a(u32 cp) { return abs_class<0>::in(cp); }
static bool b(u32 cp) { return abs_class<1>::in(cp); }
static bool c(u32 cp) { return abs_class<2>::in(cp); }
static bool d(u32 cp) { return abs_class<3>::in(cp); }
#define LOW IN('a', 'z')
#define DIG IN('0', '9')
CC(s_or, A / B, a(cp) | b(cp))
CC(s_or3, A / B / C, a(cp) | b(cp) | c(cp))
CC(s_or3r, A / (B / C), a(cp) | b(cp) | c(cp))
CC(s_or4, (A / B) / (C / D), a(cp) | b(cp) | c(cp) | d(cp))
CC(s_not, -A, !a(cp))
CC(s_notnot, -(-A), a(cp))
CC(s_minus, A - B, a(cp) & !b(cp))
CC(s_minus2, A - B - C, a(cp) & !b(cp) & !c(cp))
CC(s_minus3, A - B - C - D, a(cp) & !b(cp) & !c(cp) & !d(cp))
CC(s_minusr, A - (B - C), a(cp) & !(b(cp) & !c(cp)))
CC(s_and, A& B, a(cp) & b(cp))
CC(s_and3, A& B& C, a(cp) & b(cp) & c(cp))
CC(s_and3r, A & (B & C), a(cp) & b(cp) & c(cp))
CC(s_and4, (A & B) & (C & D), a(cp) & b(cp) & c(cp) & d(cp))
CC(s_notor, -(A / B), !(a(cp) | b(cp)))
CC(s_notand, -(A & B), !(a(cp) & b(cp)))
CC(s_notminus, -(A - B), !(a(cp) & !b(cp)))
CC(s_mix1, (A / B) - (C / D), (a(cp) | b(cp)) & !(c(cp) | d(cp)))
CC(s_mix2, (A - B) & -C, a(cp) & !b(cp) & !c(cp))
CC(s_mix3, (A & B) / (C - D), (a(cp) & b(cp)) | (c(cp) & !d(cp)))
CC(s_mix4, -(-A & -B) - (C & D), (a(cp) | b(cp)) & !(c(cp) & d(cp)))
// with ASCII-only classes and literals
CC(s_asc1, dsl::ascii::lower / A, LOW | a(cp))
CC(s_asc2, A - dsl::ascii::lower, a(cp) & !LOW)
CC(s_asc3, dsl::ascii::lower - A, LOW & !a(cp))
CC(s_asc4, dsl::ascii::lower & A, LOW & a(cp))
CC(s_asc5, -dsl::ascii::lower, !LOW)
CC(s_asc6, dsl::ascii::lower / dsl::ascii::digit, LOW | DIG)
CC(s_asc7, dsl::ascii::alnum - dsl::ascii::digit - dsl::ascii::lower, IN('A', 'Z'))
CC(s_asc8, dsl::ascii::print & -dsl::ascii::alnum, IN(0x20, 0x7E) & !(LOW | DIG | IN('A', 'Z')))
CC(s_asc9, dsl::ascii::alpha& dsl::ascii::lower, LOW)
CC(s_lit1, dsl::lit_c<'x'> / dsl::ascii::digit, (cp == 'x') | DIG)
CC(s_lit2, A - dsl::lit_c<'c'>, a(cp) & (cp != 'c'))
CC(s_lit3, dsl::lit_cp<0x1F600> / A, (cp == 0x1F600) | a(cp))
CC(s_lit4, A - dsl::lit_cp<0xE4>, a(cp) & (cp != 0xE4))
CC(s_lit5, -dsl::lit_cp<0x20AC>, cp != 0x20AC)
CC(s_lit6, -dsl::lit_c<'\\'>, cp != '\\')
CC(s_lit7, (dsl::lit_cp<0x7F> / dsl::lit_cp<0x80>), (cp == 0x7F) | (cp == 0x80))
CC(s_macro, LEXY_CHAR_CLASS("m", A - B), a(cp) & !b(cp))
CC(s_macro2, -LEXY_CHAR_CLASS("m", A / dsl::ascii::lower), !(a(cp) | LOW))
// classes with members both inside and outside of ASCII, of which one part is an ASCII table only
#define AL (LOW | IN('A', 'Z'))
CC(s_mx1, A - (dsl::ascii::digit / B), a(cp) & !(DIG | b(cp)))
CC(s_mx2, (dsl::ascii::digit / A) - (dsl::ascii::lower / B), (DIG | a(cp)) & !(LOW | b(cp)))
CC(s_mx3, A & (dsl::ascii::lower / B), a(cp) & (LOW | b(cp)))
CC(s_mx4, -(dsl::ascii::digit / A), !(DIG | a(cp)))
CC(s_mx5, (A - dsl::ascii::digit) / B, (a(cp) & !DIG) | b(cp))
CC(s_mx6, (dsl::ascii::lower / A) & (dsl::ascii::alpha / B), (LOW | a(cp)) & (AL | b(cp)))
CC(s_mx7, -(A - dsl::ascii::lower), !(a(cp) & !LOW))
CC(s_mx8, -(A & (dsl::ascii::digit / B)), !(a(cp) & (DIG | b(cp))))
CC(s_mx9, A - (dsl::ascii::digit / dsl::lit_cp<0xE4>), a(cp) & !(DIG | (cp == 0xE4)))
CC(s_mx10, A - dsl::ascii::digit - B - dsl::lit_cp<0x20AC>, a(cp) & !DIG & !b(cp) & (cp != 0x20AC))
CC(s_mx11, dsl::code_point - (dsl::ascii::digit / A), !(DIG | a(cp)))
CC(s_mx12, -dsl::ascii::digit - (dsl::ascii::lower / A), !DIG & !LOW & !a(cp))
// code point sets
CC(p_range, (dsl::code_point.range<0x60, 0x20AC>()), IN(0x60, 0x20AC))
CC(p_range2, (dsl::code_point.range<0x10000, 0x10FFFF>()), IN(0x10000, 0x10FFFF))
CC(p_set, (dsl::code_point.set<0x41, 0x7F, 0x80, 0xFFFF, 0x10000>()), (cp == 0x41) | (cp == 0x7F) | (cp == 0x80) | (cp == 0xFFFF) | (cp == 0x10000))
CC(p_ascii, dsl::code_point.ascii(), cp <= 0x7F)
CC(p_bmp, dsl::code_point.bmp(), cp <= 0xFFFF)
CC(p_nonchar, dsl::code_point.noncharacter(), IN(0xFDD0, 0xFDEF) | ((cp & 0xFFFE) == 0xFFFE))
CC(p_cc, dsl::code_point.general_category<lexy::code_point::Cc>(), (cp <= 0x1F) | IN(0x7F, 0x9F))
CC(p_co, dsl::code_point.general_category<lexy::code_point::Co>(), IN(0xE000, 0xF8FF) | IN(0xF0000, 0xFFFFD) | IN(0x100000, 0x10FFFD))
CC(p_cs, dsl::code_point.general_category<lexy::code_point::Cs>(), false)
CC(p_minus, dsl::code_point - dsl::code_point.ascii(), cp > 0x7F)
// bytes
CC(b_or, dsl::lit_b<0x41> / dsl::lit_b<0x80> / dsl::lit_b<0xFF>, (cp == 0x41) | (cp == 0x80) | (cp == 0xFF))
CC(b_not, -dsl::lit_b<0xFF>, cp != 0xFF)
CC(b_minus, dsl::ascii::character / dsl::lit_b<0x90> - dsl::lit_b<0x90>, cp <= 0x7F)
CC(b_and, -dsl::lit_b<0xFE> & -dsl::lit_b<0x80>, (cp != 0xFE) & (cp != 0x80))

template <typename Case, typename E, typename In>
static void one(const In& in, spec s)
{
    auto reader = in.reader();
    auto r      = run<typename Case::prod>(reader);
    bool want   = s.ok & Case::in(s.cp);
    vc_assert(r.ok == want, "matches iff the next code point is in the set");
    vc_assert(G.n_err == (want ? 0 : 1), "one error iff it does not match");
    if (want)
        vc_assert(off(reader.position()) == s.len, "consumes exactly that code point");
    else
        vc_assert(G.err_pos == 0, "the error is at the position of the class");
}
template <typename E, template <typename> class In, typename... Case>
static void cases()
{
    In<E> in;
    spec  s = spec_of<E>(in);
    u64   which = vc_choose("case", sizeof...(Case));
    u64   i     = 0;
    (void)((which == i++ ? (one<Case, E>(in, s), true) : false) || ...);
}
#define ASCII_CASES                                                                                                    \
    k_control, k_blank, k_newline, k_other_space, k_space, k_lower, k_upper, k_alpha, k_alphau, k_digit, k_alnum,      \
        k_alpha_digit, k_word, k_word2, k_punct, k_graph, k_print, k_char, k_oneof, k_oneof1
#define ALG1 s_or, s_or3, s_or3r, s_or4, s_not, s_notnot, s_minus, s_minus2, s_minus3, s_minusr
#define ALG2 s_and, s_and3, s_and3r, s_and4, s_notor, s_notand, s_notminus, s_mix1, s_mix2, s_mix3, s_mix4
#define ALG3 s_asc1, s_asc2, s_asc3, s_asc4, s_asc5, s_asc6, s_asc7, s_asc8, s_asc9
#define ALG4 s_lit1, s_lit2, s_lit3, s_lit4, s_lit5, s_lit6, s_lit7, s_macro, s_macro2
#define ALG5 s_mx1, s_mx2, s_mx3, s_mx4, s_mx5, s_mx6, s_mx7, s_mx8, s_mx9, s_mx10, s_mx11, s_mx12
#define CPS p_range, p_range2, p_set, p_ascii, p_bmp, p_nonchar, p_cc, p_co, p_cs, p_minus
#define BYTES b_or, b_not, b_minus, b_and
#define ENC(suffix, E)                                                                                                 \
    VU(ascii_##suffix) { cases<E, arb_input, ASCII_CASES>(); }                                                         \
    VU(alg1_##suffix) { cases<E, arb_input, ALG1>(); }                                                                 \
    VU(alg2_##suffix) { cases<E, arb_input, ALG2>(); }                                                                 \
    VU(alg3_##suffix) { cases<E, arb_input, ALG3>(); }                                                                 \
    VU(alg4_##suffix) { cases<E, arb_input, ALG4>(); }                                                                 \
    VU(alg5_##suffix) { cases<E, arb_input, ALG5>(); }                                                                 \
    VU(cps_##suffix) { cases<E, arb_input, CPS>(); }
#ifndef PART
#define PART 0
#endif
#if PART == 0
ENC(utf8, lexy::utf8_encoding)
VU(ascii_buf_utf8) { cases<lexy::utf8_encoding, arb_buffer, ASCII_CASES>(); }
VU(alg3_buf_utf8) { cases<lexy::utf8_encoding, arb_buffer, ALG3>(); }
#elif PART == 1
ENC(utf8c, lexy::utf8_char_encoding)
#elif PART == 2
ENC(utf16, lexy::utf16_encoding)
#elif PART == 3
ENC(utf32, lexy::utf32_encoding)
VU(ascii_buf_utf32) { cases<lexy::utf32_encoding, arb_buffer, ASCII_CASES>(); }
VU(alg3_buf_utf32) { cases<lexy::utf32_encoding, arb_buffer, ALG3>(); }
#else
VU(ascii_ascii) { cases<lexy::ascii_encoding, arb_input, ASCII_CASES>(); }
VU(alg3_ascii) { cases<lexy::ascii_encoding, arb_input, s_asc6, s_asc7, s_asc9, s_lit1>(); }
VU(ascii_buf_ascii) { cases<lexy::ascii_encoding, arb_buffer, ASCII_CASES>(); }
VU(ascii_byte) { cases<lexy::byte_encoding, arb_input, ASCII_CASES>(); }
VU(bytes_byte) { cases<lexy::byte_encoding, arb_input, BYTES>(); }
VU(ascii_default) { cases<lexy::default_encoding, arb_input, ASCII_CASES>(); }
VU(bytes_default) { cases<lexy::default_encoding, arb_input, BYTES>(); }
#endif

// --- a whole word of code units: the word test never claims more than the class
#if PART == 1
template <typename Cls, typename E>
static void swar_one(u64 w, u64 k)
{
    constexpr auto bits = 8 * sizeof(typename E::char_type);
    u32            cp   = u32(w >> (k * bits)) & u32((u64(1) << bits) - 1);
    using rule_t        = decltype(Cls::prod::rule);
    bool m              = rule_t::template char_class_match_swar<E>(w);
    vc_assert(!m | (Cls::in(cp) & (cp <= 0x7F)), "a matched word contains only members of the class");
}
template <typename E, typename... Case>
static void swar_cases()
{
    ghost_reset(nullptr, 1);
    u64 w = vc_nd64("word"), k = vc_nd64("k");
    vc_assume(k < 8 / sizeof(typename E::char_type));
    u64 which = vc_choose("case", sizeof...(Case));
    u64 i     = 0;
    (void)((which == i++ ? (swar_one<Case, E>(w, k), true) : false) || ...);
}
VU(swar_utf8) { swar_cases<lexy::utf8_encoding, ASCII_CASES>(); }
VU(swar_utf8c) { swar_cases<lexy::utf8_char_encoding, ASCII_CASES>(); }
VU(swar_ascii) { swar_cases<lexy::ascii_encoding, ASCII_CASES>(); }
VU(swar_utf16) { swar_cases<lexy::utf16_encoding, ASCII_CASES>(); }
VU(swar_utf32) { swar_cases<lexy::utf32_encoding, ASCII_CASES>(); }
#endif

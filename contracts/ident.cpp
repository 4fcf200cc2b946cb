// Property: identifiers are maximal, keywords are whole words, reserved words are rejected, literal sets and
// symbol tables take the longest entry.
#include "litspec.hpp"
namespace dsl = lexy::dsl;

static const void* D;
static u64         N;
template <typename E>
static u32 at(u64 i)
{
    constexpr auto w = sizeof(typename E::char_type);
    if constexpr (w == 1)
        return vc_rd8(D, i, N);
    else if constexpr (w == 2)
        return vc_rd16(D, 2 * i, 2 * N);
    else
        return vc_rd32(D, 4 * i, 4 * N);
}
static bool is_alpha(u32 c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
#if PART == 0
static bool is_lead(u32 c) { return is_alpha(c) | (c == '_'); }
static bool is_word(u32 c) { return is_lead(c) | ((c >= '0') & (c <= '9')); }
#else
static bool is_lead(u32 c) { return (c >= 'a') & (c <= 'z'); }
static bool is_word(u32 c) { return (c >= 0x21) & (c <= 0x7E); }
#endif
template <typename E>
static bool not_word(u64 i) { return !is_word(at<E>(i)); }
template <typename E>
static bool not_graph(u64 i) { u32 c = at<E>(i); return !((c >= 0x21) & (c <= 0x7E)); }

template <typename E>
struct view  // the first n code units of the input
{
    u64 n;
    u32 at(u64 i) const { return ::at<E>(i); }
};
static u64  L_b, L_e, L_n;
struct take
{
    using return_type = void;
    template <typename Lexeme>
    constexpr void operator()(Lexeme l) const
    {
        L_b = off(l.begin());
        L_e = off(l.end());
        ++L_n;
    }
};
template <typename In>
static void start(const In& in)
{
    D = in.data;
    N = in.n;
    L_n = 0;
    L_b = L_e = 0;
    vc_alphabet("in", "abAB_0tif.", 10);
}
#if PART == 0
constexpr auto id = dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::alpha_digit_underscore);
#else
constexpr auto id = dsl::identifier(dsl::ascii::lower, dsl::ascii::graph);
#endif

// --- maximal munch, value is the lexeme
struct p_id
{
    static constexpr auto rule  = id;
    static constexpr auto value = take{};
};
struct p_graph
{
    static constexpr auto rule  = dsl::identifier(dsl::ascii::graph);
    static constexpr auto value = take{};
};
template <typename E, template <typename> class In, typename P>
static void max_unit(bool lead, u64 end)
{
}
template <typename E, template <typename> class In>
static void id_unit()
{
    In<E> in;
    start(in);
    u64  e      = vc_first("E", in.data, sizeof(typename E::char_type), 1, in.n == 0 ? 1 : in.n, &not_word<E>);
    bool ok     = (in.n > 0) & is_lead(in.at(0));
    auto reader = in.reader();
    auto r      = run<p_id>(reader);
    vc_assert(r.ok == ok, "an identifier needs a leading character");
    vc_assert(G.n_err == (ok ? 0 : 1), "error iff it does not match");
    if (ok)
    {
        vc_assert(off(reader.position()) == e, "maximal munch");
        vc_assert((L_n == 1) & (L_b == 0) & (L_e == e), "the value is the lexeme");
        vc_assert((G.n_tok == 1) & (G.tok_begin == 0) & (G.tok_end == e), "one token");
    }
    else
        vc_assert(off(reader.position()) == 0, "nothing is consumed on failure");
    vc_cover(ok, "identifier");
}
template <typename E, template <typename> class In>
static void graph_unit()
{
    In<E> in;
    start(in);
    u64  e      = vc_first("E", in.data, sizeof(typename E::char_type), 0, in.n, &not_graph<E>);
    auto reader = in.reader();
    auto r      = run<p_graph>(reader);
    vc_assert(r.ok == (e > 0), "an identifier needs a leading character");
    if (r.ok)
        vc_assert((off(reader.position()) == e) & (L_n == 1) & (L_b == 0) & (L_e == e), "maximal munch");
}
#define ENCS(U)                                                                                                        \
    VU(U##_utf8) { U##_unit<lexy::utf8_encoding, arb_input>(); }                                                       \
    VU(U##_utf16) { U##_unit<lexy::utf16_encoding, arb_input>(); }                                                     \
    VU(U##_utf32) { U##_unit<lexy::utf32_encoding, arb_input>(); }                                                     \
    VU(U##_byte) { U##_unit<lexy::byte_encoding, arb_input>(); }                                                       \
    VU(U##_buf_utf8) { U##_unit<lexy::utf8_encoding, arb_buffer>(); }                                                  \
    VU(U##_buf_utf8c) { U##_unit<lexy::utf8_char_encoding, arb_buffer>(); }                                            \
    VU(U##_buf_ascii) { U##_unit<lexy::ascii_encoding, arb_buffer>(); }                                                \
    VU(U##_buf_utf32) { U##_unit<lexy::utf32_encoding, arb_buffer>(); }
#if PART == 0
ENCS(id)
ENCS(graph)
#endif

// --- reserved words
static u64 IDE;  // end of the identifier
template <typename E>
static bool contains_at(u64 i) { return lit_at<3>(view<E>{IDE}, i, "aba") | lit_at<2>(view<E>{IDE}, i, "__"); }
template <typename E>
static bool suffix_at(u64 i)
{
    return (lit_at<2>(view<E>{IDE}, i, "_t") & (i + 2 == IDE)) | (lit_at<3>(view<E>{IDE}, i, "aba") & (i + 3 == IDE));
}
static bool rsv_exact(const auto& v, u64 e) { return (lit_at<3>(v, 0, "int") & (e == 3)) | (lit_at<4>(v, 0, "int8") & (e == 4)) | (lit_at<2>(v, 0, "if") & (e == 2)); }
struct res_exact
{
    static constexpr auto rule_() { return id.reserve(LEXY_KEYWORD("int", id), LEXY_KEYWORD("int8", id), LEXY_LIT("if")); }
    template <typename E>
    static bool reserved() { return rsv_exact(view<E>{IDE}, IDE); }
};
struct res_exact2
{
    static constexpr auto rule_() { return id.reserve(LEXY_LIT("if")).reserve(dsl::literal_set(LEXY_LIT("int8"), LEXY_LIT("int"))); }
    template <typename E>
    static bool reserved() { return rsv_exact(view<E>{IDE}, IDE); }
};
struct res_ci
{
    static constexpr auto rule_() { return id.reserve(dsl::ascii::case_folding(LEXY_KEYWORD("if", id))); }
    template <typename E>
    static bool reserved() { return lit_at_ci<2>(view<E>{IDE}, 0, "if") & (IDE == 2); }
};
struct res_prefix
{
    static constexpr auto rule_() { return id.reserve_prefix(LEXY_LIT("__"), LEXY_LIT("a_")); }
    template <typename E>
    static bool reserved() { return lit_at<2>(view<E>{IDE}, 0, "__") | lit_at<2>(view<E>{IDE}, 0, "a_"); }
};
struct res_contain
{
    static constexpr auto rule_() { return id.reserve_containing(LEXY_LIT("aba"), LEXY_LIT("__")); }
    template <typename E>
    static bool reserved() { return vc_first("F", D, sizeof(typename E::char_type), 0, IDE, &contains_at<E>) < IDE; }
};
struct res_suffix
{
    static constexpr auto rule_() { return id.reserve_suffix(LEXY_LIT("aba"), LEXY_LIT("_t")); }
    template <typename E>
    static bool reserved() { return vc_first("F", D, sizeof(typename E::char_type), 0, IDE, &suffix_at<E>) < IDE; }
};
struct res_mix
{
    static constexpr auto rule_() { return id.reserve(LEXY_KEYWORD("if", id)).reserve_prefix(LEXY_LIT("__")); }
    template <typename E>
    static bool reserved() { return (lit_at<2>(view<E>{IDE}, 0, "if") & (IDE == 2)) | lit_at<2>(view<E>{IDE}, 0, "__"); }
};
template <typename R>
struct p_res
{
    static constexpr auto rule  = R::rule_();
    static constexpr auto value = take{};
};
template <typename R>
struct p_resb
{
    static constexpr auto rule  = dsl::opt(R::rule_());
    static constexpr auto value = take{} ;
};
struct take_opt
{
    using return_type = void;
    template <typename T>
    constexpr void operator()(T&& l) const
    {
        if constexpr (requires { l.begin(); })
        {
            L_b = off(l.begin());
            L_e = off(l.end());
            ++L_n;
        }
    }
};
template <typename R>
struct p_resopt
{
    static constexpr auto rule  = dsl::opt(R::rule_());
    static constexpr auto value = take_opt{};
};
template <typename R, typename E, template <typename> class In>
static void res_unit()
{
    In<E> in;
    start(in);
    bool ok = (in.n > 0) & is_lead(in.at(0));
    u64  e  = vc_first("E", in.data, sizeof(typename E::char_type), 1, in.n == 0 ? 1 : in.n, &not_word<E>);
    IDE     = e;
    bool reserved = R::template reserved<E>();
    auto reader   = in.reader();
    if (vc_choose("form", 2) == 0)
    {
        auto r = run<p_res<R>>(reader);
        vc_assert(r.ok == ok, "a reserved identifier is reported but does not stop the parse");
        if (ok)
        {
            vc_assert(off(reader.position()) == e, "maximal munch");
            vc_assert(G.n_err == (reserved ? 1 : 0), "an error iff the identifier is reserved");
            if (reserved)
                vc_assert((G.err_pos == 0) & (G.err_end == e), "the error covers the identifier");
            vc_assert((L_n == 1) & (L_b == 0) & (L_e == e), "the value is the lexeme");
        }
        vc_cover(ok & reserved, "reserved");
        vc_cover(ok & !reserved, "not reserved");
    }
    else
    {
        auto r = run<p_resopt<R>>(reader);
        bool taken = ok & !reserved;
        vc_assert(r.ok & (G.n_err == 0), "a branch on an identifier never fails");
        vc_assert(L_n == (taken ? 1 : 0), "the branch is taken iff there is a non-reserved identifier");
        vc_assert(off(reader.position()) == (taken ? e : 0), "consumes the identifier or nothing");
    }
}
#define RES(name)                                                                                                      \
    VU(name##_utf8) { res_unit<name, lexy::utf8_encoding, arb_input>(); }                                              \
    VU(name##_buf_utf8c) { res_unit<name, lexy::utf8_char_encoding, arb_buffer>(); }                                   \
    VU(name##_utf16) { res_unit<name, lexy::utf16_encoding, arb_input>(); }
#if PART == 1
RES(res_exact)
RES(res_exact2)
RES(res_ci)
RES(res_prefix)
RES(res_mix)
#elif PART == 2
VU(res_contain_utf8) { res_unit<res_contain, lexy::utf8_encoding, arb_input>(); }
VU(res_suffix_utf8) { res_unit<res_suffix, lexy::utf8_encoding, arb_input>(); }
#endif

// --- keywords: whole words only
#if PART == 3
struct p_kw
{
    static constexpr auto rule  = LEXY_KEYWORD("if", id);
    static constexpr auto value = lexy::noop;
};
struct p_kwci
{
    static constexpr auto rule  = dsl::ascii::case_folding(LEXY_KEYWORD("if", id));
    static constexpr auto value = lexy::noop;
};
struct p_kw9
{
    static constexpr auto rule  = LEXY_KEYWORD("interface", id);
    static constexpr auto value = lexy::noop;
};
template <typename P, u64 M, typename E, template <typename> class In>
static void kw_unit(const char* str, bool ci)
{
    In<E> in;
    start(in);
    u64  e      = vc_first("E", in.data, sizeof(typename E::char_type), 1, in.n == 0 ? 1 : in.n, &not_word<E>);
    bool lit    = ci ? lit_at_ci<M>(in, 0, str) : lit_at<M>(in, 0, str);
    bool ok     = lit & !((in.n > M) & is_word(in.at(M)));
    auto reader = in.reader();
    auto r      = run<P>(reader);
    vc_assert(r.ok == ok, "a keyword matches iff it is not part of a longer word");
    if (ok)
        vc_assert((off(reader.position()) == M) & (G.n_err == 0), "consumes the keyword");
    else
    {
        bool isid = (in.n > 0) & is_lead(in.at(0));
        bool up   = (in.n > 0) & is_alpha(in.at(0)) & !isid; // a leading character only after case folding
        vc_assert((G.n_err == 1) & (G.err_pos == 0) & ((G.err_end == (isid ? e : 0)) | (ci & up)), "the error covers the identifier that is there");
    }
    vc_cover(ok, "keyword");
    vc_cover(lit & !ok, "prefix of an identifier");
}
#define KW(s, E, In)                                                                                                   \
    VU(kw_##s) { kw_unit<p_kw, 2, E, In>("if", false); }                                                               \
    VU(kwci_##s) { kw_unit<p_kwci, 2, E, In>("if", true); }                                                            \
    VU(kw9_##s) { kw_unit<p_kw9, 9, E, In>("interface", false); }
KW(utf8, lexy::utf8_encoding, arb_input)
KW(utf16, lexy::utf16_encoding, arb_input)
KW(utf32, lexy::utf32_encoding, arb_input)
KW(buf_utf8c, lexy::utf8_char_encoding, arb_buffer)
KW(buf_utf32, lexy::utf32_encoding, arb_buffer)

// --- literal sets: the longest literal that matches
constexpr auto LS1 = dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("abc"), LEXY_LIT("b"), LEXY_LIT("bx"), LEXY_LIT("abde"), LEXY_LIT("abcdefghij"));
constexpr auto LS2 = dsl::literal_set(LEXY_LIT("a")) / LEXY_KEYWORD("ab", id) / LEXY_KEYWORD("abcd", id) / LEXY_LIT("abc.");
constexpr auto LS3 = dsl::literal_set(dsl::ascii::case_folding(LEXY_LIT("a")), dsl::ascii::case_folding(LEXY_LIT("abc")), dsl::ascii::case_folding(LEXY_LIT("xy")));
constexpr auto LS4 = dsl::literal_set(LEXY_LIT("aaa")) / dsl::literal_set(LEXY_LIT("aa"), LEXY_LIT("ab")) / LEXY_LIT("b");
static u64 mx(u64 a, u64 b) { return a > b ? a : b; }
template <u64 M>
static u64 ln(const auto& in, const char* s) { return lit_at<M>(in, 0, s) ? M + 1 : 0; }
template <u64 M>
static u64 lc(const auto& in, const char* s) { return lit_at_ci<M>(in, 0, s) ? M + 1 : 0; }
template <u64 M>
static u64 lk(const auto& in, const char* s) { return (lit_at<M>(in, 0, s) & !((in.n > M) & is_word(in.at(M)))) ? M + 1 : 0; }
// 0: no match, otherwise length + 1
template <int K>
static u64 ls_spec(const auto& in)
{
    if constexpr (K == 0)
        return mx(ln<1>(in, "a"), mx(ln<3>(in, "abc"), mx(ln<1>(in, "b"), mx(ln<2>(in, "bx"), mx(ln<4>(in, "abde"), ln<10>(in, "abcdefghij"))))));
    else if constexpr (K == 1)
        return mx(ln<1>(in, "a"), mx(lk<2>(in, "ab"), mx(lk<4>(in, "abcd"), ln<4>(in, "abc."))));
    else if constexpr (K == 2)
        return mx(lc<1>(in, "a"), mx(lc<3>(in, "abc"), lc<2>(in, "xy")));
    else
        return mx(ln<3>(in, "aaa"), mx(ln<2>(in, "aa"), mx(ln<2>(in, "ab"), ln<1>(in, "b"))));
}
template <int K>
struct p_ls
{
    static constexpr auto rule_()
    {
        if constexpr (K == 0)
            return LS1;
        else if constexpr (K == 1)
            return LS2;
        else if constexpr (K == 2)
            return LS3;
        else
            return LS4;
    }
    static constexpr auto rule  = rule_();
    static constexpr auto value = lexy::noop;
};
template <int K, typename In>
static void ls_one(const In& in)
{
    u64  s      = ls_spec<K>(in);
    auto reader = in.reader();
    auto r      = run<p_ls<K>>(reader);
    vc_assert(r.ok == (s > 0), "a literal set matches iff one of its literals does");
    vc_assert(G.n_err == (s > 0 ? 0 : 1), "error iff no match");
    if (s > 0)
        vc_assert(off(reader.position()) + 1 == s, "the longest literal is consumed");
    else
        vc_assert((off(reader.position()) == 0) & (G.err_pos == 0), "nothing is consumed otherwise");
}
template <typename E, template <typename> class In>
static void ls_unit()
{
    In<E> in;
    start(in);
    vc_alphabet("in", "abcdefghijABCxyXY.", 18);
    u64 w = vc_choose("set", 4);
    if (w == 0) ls_one<0>(in);
    else if (w == 1) ls_one<1>(in);
    else if (w == 2) ls_one<2>(in);
    else ls_one<3>(in);
}
VU(ls_utf8) { ls_unit<lexy::utf8_encoding, arb_input>(); }
VU(ls_utf16) { ls_unit<lexy::utf16_encoding, arb_input>(); }
VU(ls_utf32) { ls_unit<lexy::utf32_encoding, arb_input>(); }
VU(ls_byte) { ls_unit<lexy::byte_encoding, arb_input>(); }
VU(ls_buf_utf8) { ls_unit<lexy::utf8_encoding, arb_buffer>(); }
VU(ls_buf_utf32) { ls_unit<lexy::utf32_encoding, arb_buffer>(); }
#endif

// --- symbol tables: the value of the longest symbol
#if PART == 4
constexpr auto ST1 = lexy::symbol_table<int>.map<LEXY_SYMBOL("a")>(11).map<LEXY_SYMBOL("abc")>(12).map<LEXY_SYMBOL("b")>(13).map<LEXY_SYMBOL("abde")>(14);
constexpr auto ST2 = ST1.case_folding(dsl::ascii::case_folding);
static u64 SV;
struct take_val
{
    using return_type = void;
    void operator()(int v) const { SV = u64(v); ++L_n; }
};
// 0: none; otherwise value * 16 + length
template <bool CI>
static u64 st_spec(const auto& in)
{
    auto l = [&](auto m, const char* s) { return CI ? lit_at_ci<decltype(m)::value>(in, 0, s) : lit_at<decltype(m)::value>(in, 0, s); };
    bool a = l(std::integral_constant<u64, 1>{}, "a"), abc = l(std::integral_constant<u64, 3>{}, "abc"), b = l(std::integral_constant<u64, 1>{}, "b"), abde = l(std::integral_constant<u64, 4>{}, "abde");
    return abde ? 14 * 16 + 4 : abc ? 12 * 16 + 3 : a ? 11 * 16 + 1 : b ? 13 * 16 + 1 : 0;
}
template <int K>
struct p_st
{
    static constexpr auto rule_()
    {
        if constexpr (K == 0)
            return dsl::symbol<ST1>;
        else if constexpr (K == 1)
            return dsl::symbol<ST2>;
        else if constexpr (K == 2)
            return dsl::symbol<ST1>(id);
        else if constexpr (K == 3)
            return dsl::symbol<ST2>(dsl::token(dsl::while_one(dsl::ascii::alpha)));
        else
            return dsl::symbol<ST1>(id.pattern());
    }
    static constexpr auto rule  = rule_();
    static constexpr auto value = take_val{};
};
template <int K>
struct p_sto
{
    static constexpr auto rule  = dsl::opt(p_st<K>::rule_());
    struct tv
    {
        using return_type = void;
        void operator()(int v) const { SV = u64(v); ++L_n; }
        void operator()(lexy::nullopt) const {}
    };
    static constexpr auto value = tv{};
};
template <typename E>
static bool not_alpha(u64 i) { return !is_alpha(at<E>(i)); }
template <int K, typename E, typename In>
static void st_one(const In& in)
{
    u64 s, e = 0;
    if constexpr (K == 0 || K == 1)
        s = st_spec<K == 1>(in);
    else if constexpr (K == 2 || K == 4)
    {
        e      = vc_first("E", in.data, sizeof(typename E::char_type), 1, in.n == 0 ? 1 : in.n, &not_word<E>);
        bool x = (in.n > 0) & is_lead(in.at(0));
        u64  t = st_spec<false>(view<E>{e});
        s      = (x & ((t & 15) == e)) ? t : 0;
    }
    else
    {
        e     = vc_first("E", in.data, sizeof(typename E::char_type), 0, in.n, &not_alpha<E>);
        u64 t = st_spec<true>(view<E>{e});
        s     = (e > 0) & ((t & 15) == e) ? t : 0;
    }
    auto reader = in.reader();
    SV          = 0;
    if (vc_choose("form", 2) == 0)
    {
        auto r = run<p_st<K>>(reader);
        vc_assert(r.ok == (s > 0), "a symbol matches iff the text is in the table");
        vc_assert(G.n_err == (s > 0 ? 0 : 1), "error iff no match");
        if (s > 0)
            vc_assert((off(reader.position()) == (s & 15)) & (L_n == 1) & (SV == (s >> 4)), "the value is the one of the longest symbol");
        else
            vc_assert(L_n == 0, "no value");
        vc_cover(s > 0, "symbol");
    }
    else
    {
        auto r = run<p_sto<K>>(reader);
        vc_assert(r.ok & (G.n_err == 0), "branch");
        vc_assert(L_n == (s > 0 ? 1 : 0), "the branch is taken iff there is a symbol");
        vc_assert(off(reader.position()) == (s & 15), "consumes the symbol or nothing");
        vc_assert(SV == (s >> 4), "value");
    }
}
template <int K, typename E, template <typename> class In>
static void st_unit()
{
    In<E> in;
    start(in);
    vc_alphabet("in", "abcdeABCDE.", 11);
    st_one<K, E>(in);
}
#define ST(K)                                                                                                          \
    VU(sym##K##_utf8) { st_unit<K, lexy::utf8_encoding, arb_input>(); }                                                \
    VU(sym##K##_utf16) { st_unit<K, lexy::utf16_encoding, arb_input>(); }
#define STB(K)                                                                                                         \
    VU(sym##K##_buf_utf8c) { st_unit<K, lexy::utf8_char_encoding, arb_buffer>(); }
ST(0)
ST(1)
ST(2)
ST(3)
ST(4)
STB(0)
STB(1)
STB(2)
STB(3)
#endif

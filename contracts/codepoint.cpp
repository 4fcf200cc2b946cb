// Property P01: code points are decoded and encoded exactly as Unicode defines.
#include "unispec.hpp"
namespace dsl = lexy::dsl;

// --- dsl::code_point matches exactly one well-formed code point
struct cp_rule
{
    static constexpr auto rule  = dsl::code_point;
    static constexpr auto value = lexy::noop;
};
template <typename E>
static void decode_unit()
{
    arb_input<E> in;
    auto         reader = in.reader();
    spec         s      = spec_of<E>(in);
    auto         r      = run<cp_rule>(reader);
    vc_assert(r.ok == s.ok, "code_point matches exactly the well-formed sequences");
    if (r.ok)
    {
        vc_assert(off(reader.position()) == s.len, "code_point consumes exactly the sequence");
        vc_assert(G.n_err == 0, "no error on success");
    }
    else
        vc_assert(G.n_err == 1, "one error on failure");
    vc_cover(r.ok, "success");
    vc_cover(!r.ok, "failure");
}
VU(decode_utf8) { decode_unit<lexy::utf8_encoding>(); }
VU(decode_utf8c) { decode_unit<lexy::utf8_char_encoding>(); }
VU(decode_utf16) { decode_unit<lexy::utf16_encoding>(); }
VU(decode_utf32) { decode_unit<lexy::utf32_encoding>(); }
VU(decode_ascii) { decode_unit<lexy::ascii_encoding>(); }

// --- the decoded value handed to a predicate is the value of the sequence, and decides the match
static u32  seen_cp;
static bool seen;
struct observe
{
    static constexpr auto name = "observe";
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (__builtin_is_constant_evaluated() || cp.value() <= 0x7F)
            return cp.value() % 3 == 0;
        seen    = true;
        seen_cp = cp.value();
        return vc_uf1_1("pred", cp.value());
    }
};
struct cp_if
{
    static constexpr auto rule  = dsl::code_point.if_<observe>();
    static constexpr auto value = lexy::noop;
};
template <typename E>
static void value_unit()
{
    arb_input<E> in;
    auto         reader = in.reader();
    spec         s      = spec_of<E>(in);
    seen                = false;
    auto r              = run<cp_if>(reader);
    bool want           = s.ok & (s.cp <= 0x7F ? s.cp % 3 == 0 : vc_uf1_1("pred", s.cp));
    vc_assert(r.ok == want, "predicate decides");
    if (seen)
        vc_assert((seen_cp == s.cp) & s.ok, "predicate sees the decoded value");
    if (r.ok)
        vc_assert(off(reader.position()) == s.len, "consumes exactly the sequence");
    vc_cover(seen, "predicate called");
}
VU(value_utf8) { value_unit<lexy::utf8_encoding>(); }
VU(value_utf8c) { value_unit<lexy::utf8_char_encoding>(); }
VU(value_utf16) { value_unit<lexy::utf16_encoding>(); }
VU(value_utf32) { value_unit<lexy::utf32_encoding>(); }

// --- encoding: as_string of a code point is its unique well-formed sequence
template <typename CharT>
struct gstr
{
    using value_type = CharT;
    CharT buf[12];
    u64   len;
    gstr() : buf{}, len(0) {}
    gstr(const CharT* b, const CharT* e) : buf{}, len(0) { append(b, e); }
    gstr(const CharT* b, std::size_t n) : buf{}, len(0) { append(b, b + n); }
    void append(const CharT* b, const CharT* e)
    {
        u64 n = u64(e - b);
        vc_assert(n <= 4, "at most four code units");
        vc_assert(len <= 8, "room");
        if (n > 0) buf[len] = b[0];
        if (n > 1) buf[len + 1] = b[1];
        if (n > 2) buf[len + 2] = b[2];
        if (n > 3) buf[len + 3] = b[3];
        len += n;
    }
    void append(gstr&& s) { append(s.buf, s.buf + s.len); }
    void push_back(CharT c) { buf[len++] = c; }
    CharT operator[](u64 i) const { return buf[i]; }
};
template <typename E, typename CharT>
static spec decode_gstr(const gstr<CharT>& s)
{
    auto at = [&](int i) { return u32(std::make_unsigned_t<std::conditional_t<sizeof(CharT) == 1, char, std::conditional_t<sizeof(CharT) == 2, short, int>>>(s.buf[i])); };
    if constexpr (std::is_same_v<E, lexy::ascii_encoding>)
        return spec_ascii(at(0), s.len);
    else if constexpr (sizeof(CharT) == 1)
        return spec_utf8(at(0), at(1), at(2), at(3), s.len);
    else if constexpr (sizeof(CharT) == 2)
        return spec_utf16(at(0), at(1), s.len);
    else
        return spec_utf32(at(0), s.len);
}
template <typename E>
static void encode_unit()
{
    using CharT = typename E::char_type;
    ghost_reset(nullptr, 1);
    u32 cp = vc_nd32("cp");
    vc_assume((cp <= 0x10FFFF) & !((cp >= 0xD800) & (cp <= 0xDFFF)));
    if constexpr (std::is_same_v<E, lexy::ascii_encoding>)
        vc_assume(cp <= 0x7F);
    gstr<CharT> s = lexy::as_string<gstr<CharT>, E>(lexy::code_point(cp));
    spec        d = decode_gstr<E>(s);
    vc_assert(d.ok, "encoding is well-formed");
    vc_assert(d.len == s.len, "encoding is a single code point");
    vc_assert(d.cp == cp, "encoding denotes the code point");

    auto sink = lexy::as_string<gstr<CharT>, E>.sink();
    sink(CharT('x'));
    sink(lexy::code_point(cp));
    gstr<CharT> t = static_cast<decltype(sink)&&>(sink).finish();
    vc_assert(t.len == s.len + 1, "sink appends the same sequence");
    vc_assert((t.buf[0] == CharT('x')) & (t.buf[1] == s.buf[0]) & ((s.len < 2) | (t.buf[2] == s.buf[1])) & ((s.len < 3) | (t.buf[3] == s.buf[2]))
                  & ((s.len < 4) | (t.buf[4] == s.buf[3])),
              "sink appends the same sequence (content)");
}
VU(encode_utf8) { encode_unit<lexy::utf8_encoding>(); }
VU(encode_utf8c) { encode_unit<lexy::utf8_char_encoding>(); }
VU(encode_utf16) { encode_unit<lexy::utf16_encoding>(); }
VU(encode_utf32) { encode_unit<lexy::utf32_encoding>(); }
VU(encode_ascii) { encode_unit<lexy::ascii_encoding>(); }

// --- classification of code points
VU(classify)
{
    ghost_reset(nullptr, 1);
    u32              v = vc_nd32("v");
    lexy::code_point cp(v);
    vc_assert(cp.value() == v, "value");
    vc_assert(cp.is_ascii() == (v < 0x80), "is_ascii");
    vc_assert(cp.is_bmp() == (v < 0x10000), "is_bmp");
    vc_assert(cp.is_valid() == (v < 0x110000), "is_valid");
    vc_assert(cp.is_surrogate() == (v >= 0xD800 && v < 0xE000), "is_surrogate");
    vc_assert(cp.is_scalar() == (v < 0xD800 || (v >= 0xE000 && v < 0x110000)), "is_scalar");
    vc_assert(cp.is_control() == (v < 0x20 || (v >= 0x7F && v < 0xA0)), "is_control");
    vc_assert(cp.is_private_use() == ((v >= 0xE000 && v < 0xF900) || (v >= 0xF0000 && v < 0xFFFFE) || (v >= 0x100000 && v < 0x10FFFE)), "is_private_use");
    if (v < 0x110000)
        vc_assert(cp.is_noncharacter() == ((v >= 0xFDD0 && v < 0xFDF0) || (v % 0x10000) >= 0xFFFE), "is_noncharacter");
    u32 w = vc_nd32("w");
    vc_assert((cp == lexy::code_point(w)) == (v == w), "equality");
    vc_assert((cp != lexy::code_point(w)) == (v != w), "inequality");
}

// --- rules that name code points
struct cp_set   { static constexpr auto rule = dsl::code_point.set<U'a', 0xE4, 0x20AC, 0x1F600>(); static constexpr auto value = lexy::noop; };
struct cp_range { static constexpr auto rule = dsl::code_point.range<0x60, 0x1F64F>(); static constexpr auto value = lexy::noop; };
struct cp_ascii { static constexpr auto rule = dsl::code_point.ascii(); static constexpr auto value = lexy::noop; };
struct cp_bmp   { static constexpr auto rule = dsl::code_point.bmp(); static constexpr auto value = lexy::noop; };
struct cp_non   { static constexpr auto rule = dsl::code_point.noncharacter(); static constexpr auto value = lexy::noop; };
template <typename P, typename E, typename F>
static void named_unit(F f)
{
    arb_input<E> in;
    auto         reader = in.reader();
    spec         s      = spec_of<E>(in);
    auto         r      = run<P>(reader);
    vc_assert(r.ok == (s.ok & f(s.cp)), "matches exactly the named code points");
    vc_assert(off(reader.position()) == (r.ok ? s.len : 0) || !r.ok, "consumption");
    vc_assert(G.n_err == (r.ok ? 0 : 1), "error iff failure");
}
template <typename E>
static void named_units()
{
    switch (vc_choose("which", 5))
    {
    case 0: named_unit<cp_set, E>([](u32 c) { return c == 'a' || c == 0xE4 || c == 0x20AC || c == 0x1F600; }); break;
    case 1: named_unit<cp_range, E>([](u32 c) { return c >= 0x60 && c <= 0x1F64F; }); break;
    case 2: named_unit<cp_ascii, E>([](u32 c) { return c <= 0x7F; }); break;
    case 3: named_unit<cp_bmp, E>([](u32 c) { return c <= 0xFFFF; }); break;
    case 4: named_unit<cp_non, E>([](u32 c) { return (c >= 0xFDD0 && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE; }); break;
    }
}
VU(named_utf8) { named_units<lexy::utf8_encoding>(); }
VU(named_utf16) { named_units<lexy::utf16_encoding>(); }
VU(named_utf32) { named_units<lexy::utf32_encoding>(); }

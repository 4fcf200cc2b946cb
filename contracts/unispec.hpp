#ifndef VC_UNISPEC_HPP
#define VC_UNISPEC_HPP
#include "harness.hpp"
// Independent specification: Unicode 15, table 3-7 (well-formed UTF-8), D91 (UTF-16), D90 (UTF-32).
struct spec
{
    bool ok;
    u32  len;
    u32  cp;
};
static spec spec_utf8(u32 a, u32 b, u32 c, u32 d, u64 n)
{
    auto t  = [](u32 x) { return (x >= 0x80) & (x <= 0xBF); };
    bool l1 = (n >= 1) & (a <= 0x7F);
    bool l2 = (n >= 2) & (a >= 0xC2) & (a <= 0xDF) & t(b);
    bool l3 = (n >= 3)
              & (((a == 0xE0) & (b >= 0xA0) & (b <= 0xBF)) | ((a >= 0xE1) & (a <= 0xEC) & t(b))
                 | ((a == 0xED) & (b >= 0x80) & (b <= 0x9F)) | ((a >= 0xEE) & (a <= 0xEF) & t(b)))
              & t(c);
    bool l4 = (n >= 4)
              & (((a == 0xF0) & (b >= 0x90) & (b <= 0xBF)) | ((a >= 0xF1) & (a <= 0xF3) & t(b))
                 | ((a == 0xF4) & (b >= 0x80) & (b <= 0x8F)))
              & t(c) & t(d);
    u32 c1 = a, c2 = (a - 0xC0) * 64 + (b - 0x80), c3 = (a - 0xE0) * 4096 + (b - 0x80) * 64 + (c - 0x80),
        c4 = (a - 0xF0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80);
    return {bool(l1 | l2 | l3 | l4), l1 ? 1u : l2 ? 2u : l3 ? 3u : 4u, l1 ? c1 : l2 ? c2 : l3 ? c3 : c4};
}
static spec spec_utf16(u32 a, u32 b, u64 n)
{
    bool hi = (a >= 0xD800) & (a <= 0xDBFF), lo = (a >= 0xDC00) & (a <= 0xDFFF);
    bool p  = (n >= 2) & hi & (b >= 0xDC00) & (b <= 0xDFFF);
    bool s  = (n >= 1) & !hi & !lo;
    return {bool(p | s), s ? 1u : 2u, s ? a : 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)};
}
static spec spec_utf32(u32 a, u64 n)
{
    return {bool((n >= 1) & (a <= 0x10FFFF) & !((a >= 0xD800) & (a <= 0xDFFF))), 1, a};
}
static spec spec_ascii(u32 a, u64 n)
{
    return {bool((n >= 1) & (a <= 0x7F)), 1, a};
}
template <typename E, typename In>
static spec spec_of(const In& i)
{
    if constexpr (std::is_same_v<E, lexy::byte_encoding> || std::is_same_v<E, lexy::default_encoding>)
        return {i.n >= 1, 1, i.at(0)};
    else if constexpr (std::is_same_v<E, lexy::ascii_encoding>)
        return spec_ascii(i.at(0), i.n);
    else if constexpr (sizeof(typename E::char_type) == 1)
        return spec_utf8(i.at(0), i.at(1), i.at(2), i.at(3), i.n);
    else if constexpr (sizeof(typename E::char_type) == 2)
        return spec_utf16(i.at(0), i.at(1), i.n);
    else
        return spec_utf32(i.at(0), i.n);
}

#endif

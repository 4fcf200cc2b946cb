// Property: a buffer owns an exact copy of its source, terminated so that its reader stops at the end.
#include "harness.hpp"

// ghost memory resource: every block is a fresh object; records what is live
struct gblock { u8* p; u64 bytes; bool live; u64 owner; };
static gblock GB[4];
static u64    GBn;
static u64    G_k;     // arbitrary index (skolem constant)
static u64    G_lo;    // the loops write from this index on
static u64    G_eof;
static u64    G_want;  // the value wanted at that index
static u64    G_w;     // code unit size
static void   gmem_reset(u64 k, u64 w)
{
    GB[0] = GB[1] = GB[2] = GB[3] = gblock{};
    GBn = 0;
    G_lo = 0;
    G_k = k;
    G_w = w;
    ghost_reset(nullptr, 1);
}
struct gmem
{
    u64   id;
    void* allocate(std::size_t bytes, std::size_t align)
    {
        vc_assert(bytes % align == 0 && align == G_w, "allocation is for whole code units");
        vc_assert(GBn < 4, "number of allocations");
        u8* p     = static_cast<u8*>(vc_array("heap", bytes));
        GB[GBn++] = gblock{p, bytes, true, id};
        vc_track(bytes);
        return p;
    }
    void deallocate(void* p, std::size_t bytes, std::size_t align)
    {
        bool ok = false;
#pragma clang loop unroll(full)
        for (int i = 0; i < 4; ++i)
            if (GB[i].p == p && GB[i].live)
            {
                vc_assert(GB[i].bytes == bytes, "deallocated with the size it was allocated with");
                vc_assert(GB[i].owner == id, "deallocated by the resource that allocated it");
                vc_assert(align == G_w, "alignment");
                GB[i].live = false;
                ok         = true;
            }
        vc_assert(ok, "only live blocks are deallocated, once");
    }
    friend bool operator==(const gmem& a, const gmem& b) { return a.id == b.id; }
};
static bool none_live() { return !GB[0].live && !GB[1].live && !GB[2].live && !GB[3].live; }

template <typename E>
static u64 unit(const typename E::char_type* p, u64 i)  // as raw bits
{
    if constexpr (sizeof(typename E::char_type) == 1)
        return u8(p[i]);
    else if constexpr (sizeof(typename E::char_type) == 2)
        return u16(p[i]);
    else
        return u32(p[i]);
}
template <typename E>
constexpr bool sentinel = std::is_same_v<typename E::char_type, typename E::int_type>;
template <typename E>
constexpr u64 eof_bits = sizeof(typename E::char_type) == 1 ? u8(E::eof()) : u32(E::eof());

// invariants of the fill / copy loops, at the arbitrary index: everything already written there is right
static u64 rdw(const u8* p, u64 i, u64 bytes)
{
    return G_w == 1 ? vc_rd8(p, i, bytes) : G_w == 2 ? vc_rd16(p, 2 * i, bytes) : vc_rd32(p, 4 * i, bytes);
}
// at the arbitrary index k >= G_lo the EOF fill is right once the loop is past it ...
static bool filled(u64 o)
{
    const gblock& b = GB[GBn - 1];
    return (GBn == 0) || (G_k < G_lo) || (o <= G_k * G_w) || (rdw(b.p, G_k, b.bytes) == G_eof);
}
// ... and stays right; at k < G_lo the content is right once the copy loop is past it
static bool kept()
{
    const gblock& b = GB[GBn - 1];
    return (GBn == 0) || (G_k < G_lo) || (rdw(b.p, G_k, b.bytes) == G_eof);
}
static bool copied(u64 o)
{
    const gblock& b = GB[GBn - 1];
    return (GBn == 0) || (G_k >= G_lo) || (o <= G_k * G_w) || (rdw(b.p, G_k, b.bytes) == G_want);
}
static bool aligned(u64 o) { return (o & (G_w - 1)) == 0; }

// what every buffer guarantees, given the source it stands for
template <typename E, typename Buf>
static void check_buffer(const Buf& b, const typename E::char_type* src, u64 n, u64 k, bool content = true)
{
    vc_assert(b.size() == n, "size");
    if (content && k < n)
        vc_assert(unit<E>(b.data(), k) == unit<E>(src, k), "content");
}

template <typename E>
struct source
{
    using C = typename E::char_type;
    u64 n, k;
    C*  p;
    source()
    {
        n = vc_nd64("len");
        k = vc_nd64("k");
        vc_range("k", 0, 12);
        vc_assume(n <= (u64(1) << 50));
        vc_assume(k <= (u64(1) << 52));
        gmem_reset(k, sizeof(C));
        p = static_cast<C*>(vc_array("src", n * sizeof(C)));
        vc_track(n);
        vc_track(n * sizeof(C));
    }
};

// construction: copy of the source at every index, EOF after it, room for a whole SWAR read at every position
template <typename E>
static void ctor_unit()
{
    source<E> s;
    using C = typename E::char_type;
    vc_use_inv1(&filled);
    vc_use_inv1(&aligned);
    G_eof = eof_bits<E>;
    G_lo  = s.n;
    gmem r{1};
    {
        lexy::buffer<E, gmem> b(s.p, s.n, &r);
        check_buffer<E>(b, s.p, s.n, s.k);
        if constexpr (sentinel<E>)
        {
            vc_assert(GB[0].bytes >= (s.n + 1) * sizeof(C) + 7, "a SWAR read at any position up to the end stays inside");
            if (s.k >= s.n && s.k < GB[0].bytes / sizeof(C))
                vc_assert(unit<E>(b.data(), s.k) == eof_bits<E>, "EOF after the content");
        }
        auto reader = b.reader();
        vc_assert(reader.position() == b.data(), "reader starts at the beginning");
        if (s.n == 0 && s.k == 0)
            vc_assert(reader.peek() == E::eof(), "empty buffer is at EOF");
        else if (s.n > 0)
            vc_assert(reader.peek() == E::to_int_type(s.p[0]), "reader reads the first unit");
        vc_cover(s.n == 0, "empty");
        vc_cover(s.n > 100, "long");
    }
    vc_assert(none_live() && GBn == 1, "exactly one allocation, freed");
}
VU(ctor_default) { ctor_unit<lexy::default_encoding>(); }
VU(ctor_ascii) { ctor_unit<lexy::ascii_encoding>(); }
VU(ctor_utf8) { ctor_unit<lexy::utf8_encoding>(); }
VU(ctor_utf8c) { ctor_unit<lexy::utf8_char_encoding>(); }
VU(ctor_utf16) { ctor_unit<lexy::utf16_encoding>(); }
VU(ctor_utf32) { ctor_unit<lexy::utf32_encoding>(); }
VU(ctor_byte) { ctor_unit<lexy::byte_encoding>(); }

// copy / move / assignment / release / adopt / builder
template <typename E>
static void ops_unit()
{
    source<E> s;
    using C = typename E::char_type;
    using B = lexy::buffer<E, gmem>;
    vc_use_inv1(&aligned);
    gmem r1{1}, r2{2};
    {
        B b(s.p, s.p + s.n, &r1);
        switch (vc_choose("op", 9))
        {
        case 0: {
            B c(b);
            check_buffer<E>(c, s.p, s.n, s.k);
            check_buffer<E>(b, s.p, s.n, s.k);
            vc_assert(c.data() != b.data(), "copy is independent");
            break;
        }
        case 1: {
            B c(static_cast<B&&>(b));
            check_buffer<E>(c, s.p, s.n, s.k);
            vc_assert(b.size() == 0, "moved-from is empty");
            break;
        }
        case 2: {
            B c(&r1);
            vc_assert(c.size() == 0, "empty");
            c = b;
            check_buffer<E>(c, s.p, s.n, s.k);
            check_buffer<E>(b, s.p, s.n, s.k);
            vc_assert(c.data() != b.data(), "copy is independent");
            break;
        }
        case 3: {
            B c(&r2);
            c = b;
            check_buffer<E>(c, s.p, s.n, s.k);
            check_buffer<E>(b, s.p, s.n, s.k);
            break;
        }
        case 4: {
            C x[1] = {C('x')};
            B c(x, 1, &r1);
            c = static_cast<B&&>(b);
            check_buffer<E>(c, s.p, s.n, s.k);
            break;
        }
        case 5: {
            C x[1] = {C('x')};
            B c(x, 1, &r2);
            c = static_cast<B&&>(b);
            check_buffer<E>(c, s.p, s.n, s.k);
            break;
        }
        case 6: {
            auto& alias = b;
            b           = alias;
            check_buffer<E>(b, s.p, s.n, s.k);
            break;
        }
        case 7: {
            auto p = static_cast<B&&>(b).release();
            vc_assert(b.size() == 0 && b.data() == nullptr, "released");
            B c = B::adopt(p, s.n, &r1);
            check_buffer<E>(c, s.p, s.n, s.k);
            break;
        }
        case 8: {
            B c(b, &r2);
            check_buffer<E>(c, s.p, s.n, s.k);
            break;
        }
        }
    }
    vc_assert(none_live(), "every block is freed exactly once");
}
VU(ops_default) { ops_unit<lexy::default_encoding>(); }
VU(ops_utf8) { ops_unit<lexy::utf8_encoding>(); }
VU(ops_utf8c) { ops_unit<lexy::utf8_char_encoding>(); }
VU(ops_utf16) { ops_unit<lexy::utf16_encoding>(); }
VU(ops_utf32) { ops_unit<lexy::utf32_encoding>(); }

template <typename E>
static void builder_unit()
{
    source<E> s;
    using C = typename E::char_type;
    vc_use_inv1(&filled);
    vc_use_inv1(&aligned);
    G_eof = eof_bits<E>;
    G_lo  = s.n;
    gmem r{1};
    {
        typename lexy::buffer<E, gmem>::builder bld(s.n, &r);
        vc_assert(bld.size() == s.n, "builder size");
        C v = C(vc_nd32("v"));
        if (s.k < s.n)
            bld.data()[s.k] = v;
        auto b = static_cast<decltype(bld)&&>(bld).finish();
        vc_assert(b.size() == s.n, "size");
        if (s.k < s.n)
            vc_assert(b.data()[s.k] == v, "keeps what was written");
        else if (sentinel<E> && s.k < GB[0].bytes / sizeof(C))
            vc_assert(unit<E>(b.data(), s.k) == eof_bits<E>, "EOF after the content");
    }
    vc_assert(none_live() && GBn == 1, "exactly one allocation, freed");
}
VU(builder_default) { builder_unit<lexy::default_encoding>(); }
VU(builder_utf8) { builder_unit<lexy::utf8_encoding>(); }
VU(builder_utf16) { builder_unit<lexy::utf16_encoding>(); }
VU(builder_utf32) { builder_unit<lexy::utf32_encoding>(); }

// an empty (default constructed, moved-from or released) buffer is an input at EOF
template <typename E>
static void empty_unit()
{
    gmem_reset(0, sizeof(typename E::char_type));
    gmem r{1};
    {
        lexy::buffer<E, gmem> b(&r);
        auto                  reader = b.reader();
        vc_assert(reader.peek() == E::eof(), "empty buffer is at EOF");
        if constexpr (lexy::_detail::is_swar_reader<decltype(reader)>)
            (void)reader.peek_swar();
    }
    vc_assert(none_live(), "nothing to free");
}
VU(empty_default) { empty_unit<lexy::default_encoding>(); }
VU(empty_utf8) { empty_unit<lexy::utf8_encoding>(); }
VU(empty_utf32) { empty_unit<lexy::utf32_encoding>(); }

// raw memory: code unit i is made of the bytes of the source in the stated byte order, a BOM decides and is dropped
template <typename E, lexy::encoding_endianness En>
static void raw_unit()
{
    using C     = typename E::char_type;
    constexpr u64 W = sizeof(C);
    u64 n = vc_nd64("len"), k = vc_nd64("k");
    vc_range("k", 0, 6);
    vc_alphabet("src", "\xFE\xFF\xEF\xBB\xBF\0a", 7);
    vc_assume(n <= (u64(1) << 50));
    vc_assume(n % W == 0);
    gmem_reset(k, W);
    const u8* p = static_cast<const u8*>(vc_array("src", n));
    auto      at = [&](u64 i) { return u64(vc_rd8(p, i, n)); };
    constexpr bool bom = En == lexy::encoding_endianness::bom;
    u64            skip = 0;
    bool           big  = En != lexy::encoding_endianness::little;
    if (bom && W == 1)
        skip = n >= 3 && at(0) == 0xEF && at(1) == 0xBB && at(2) == 0xBF ? 3 : 0;
    else if (bom && W == 2)
    {
        bool le = n >= 2 && at(0) == 0xFF && at(1) == 0xFE, be = n >= 2 && at(0) == 0xFE && at(1) == 0xFF;
        skip = le || be ? 2 : 0;
        big  = !le;
    }
    else if (bom && W == 4)
    {
        bool le = n >= 4 && at(0) == 0xFF && at(1) == 0xFE && at(2) == 0 && at(3) == 0,
             be = n >= 4 && at(0) == 0 && at(1) == 0 && at(2) == 0xFE && at(3) == 0xFF;
        skip = le || be ? 4 : 0;
        big  = !le;
    }
    u64 o = skip + k * W;
    vc_assume(k <= (n - skip) / W);
    u64 v = W == 1 ? at(o)
            : W == 2 ? (big ? at(o) << 8 | at(o + 1) : at(o + 1) << 8 | at(o))
                     : (big ? at(o) << 24 | at(o + 1) << 16 | at(o + 2) << 8 | at(o + 3)
                            : at(o + 3) << 24 | at(o + 2) << 16 | at(o + 1) << 8 | at(o));
    G_want = v;
    G_eof  = eof_bits<E>;
    G_lo   = (n - skip) / W;
    vc_track(n);
    vc_track(n - skip);
    vc_use_inv1(&filled);
    vc_use_inv1(&copied);
    vc_use_inv0(&kept);
    vc_use_inv1(&aligned);
    gmem r{1};
    {
        auto b = lexy::make_buffer_from_raw<E, En>(p, n, &r);
        vc_assert(b.size() == (n - skip) / W, "size without BOM");
        if (k < b.size())
            vc_assert(unit<E>(b.data(), k) == v, "code unit in the stated byte order");
        else if (sentinel<E> && k == b.size())
            vc_assert(unit<E>(b.data(), k) == eof_bits<E>, "EOF after the content");
        vc_cover(skip > 0 || !bom, "bom");
    }
    vc_assert(none_live(), "freed");
}
#define RAW(name, E)                                                                                                   \
    VU(raw_##name##_le) { raw_unit<E, lexy::encoding_endianness::little>(); }                                          \
    VU(raw_##name##_be) { raw_unit<E, lexy::encoding_endianness::big>(); }                                             \
    VU(raw_##name##_bom) { raw_unit<E, lexy::encoding_endianness::bom>(); }
RAW(utf8, lexy::utf8_encoding)
RAW(utf8c, lexy::utf8_char_encoding)
RAW(utf16, lexy::utf16_encoding)
RAW(utf32, lexy::utf32_encoding)

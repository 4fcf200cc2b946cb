// Common ghost state: a custom lexy action whose handler records what a parse does.
#ifndef VC_HARNESS_HPP
#define VC_HARNESS_HPP
#include "vc.hpp"
#include <lexy/action/base.hpp>
#include <lexy/action/match.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input/buffer.hpp>

struct ghost
{
    u64  n_err;      // errors reported so far
    u64  n_tok;      // token events (not error tokens)
    u64  n_errtok;   // error tokens
    u64  n_back;     // backtracked events
    u64  err_pos;    // offset of the last error
    u64  err_end;
    u64  err_index, err_len; // of literal errors
    u64  n_idx_err;
    u32  err_tag;              // tag_id of the last error
    u64  etok_begin, etok_end; // last error token
    u64  tok_begin, tok_end;
    u64  depth;      // open productions
    u64  n_rec_start, n_rec_finish, n_rec_cancel;
    bool grammar_finish, grammar_cancel;
};
inline ghost     G;
inline const u8* G_base;  // begin of the input (bytes)
inline u64       G_unit;  // sizeof(code unit)

inline void ghost_reset(const void* base, u64 unit)
{
    G      = ghost();
    G_base = static_cast<const u8*>(base);
    G_unit = unit;
}
template <typename T>
inline u64 off(const T* p)
{
    return u64(reinterpret_cast<const u8*>(p) - G_base) / sizeof(T);
}

// contracts that distinguish errors specialize this
template <typename Tag>
inline constexpr u32 tag_id = 99;
template <typename Reader, typename Tag>
inline u32 g_err_tag(const lexy::error<Reader, Tag>&)
{
    return tag_id<Tag>;
}

template <typename Error>
inline auto g_err_end(const Error& e, int) -> decltype(off(e.end()))
{
    return off(e.end());
}
template <typename Error>
inline u64 g_err_end(const Error& e, long)
{
    return off(e.position());
}

class ghandler
{
public:
    class event_handler
    {
    public:
        constexpr event_handler(lexy::production_info) {}

        template <typename Error>
        void on(ghandler&, lexy::parse_events::error, const Error& e)
        {
            ++G.n_err;
            G.err_pos = off(e.position());
            G.err_end = g_err_end(e, 0);
            G.err_tag = g_err_tag(e);
            if constexpr (requires { e.index(); })
            {
                G.err_index = e.index();
                G.err_len   = e.length();
                ++G.n_idx_err;
            }
        }
        template <typename Kind, typename It>
        void on(ghandler&, lexy::parse_events::token, Kind, It b, It e)
        {
            ++G.n_tok;
            G.tok_begin = off(b);
            G.tok_end   = off(e);
        }
        template <typename It>
        void on(ghandler&, lexy::parse_events::token, lexy::predefined_token_kind k, It b, It e)
        {
            if (k == lexy::error_token_kind)
            {
                ++G.n_errtok;
                G.etok_begin = off(b);
                G.etok_end   = off(e);
            }
            else
            {
                ++G.n_tok;
                G.tok_begin = off(b);
                G.tok_end   = off(e);
            }
        }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::production_start, const A&...) { ++G.depth; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::production_finish, const A&...) { --G.depth; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::production_cancel, const A&...) { --G.depth; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::recovery_start, const A&...) { ++G.n_rec_start; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::recovery_finish, const A&...) { ++G.n_rec_finish; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::recovery_cancel, const A&...) { ++G.n_rec_cancel; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::backtracked, const A&...) { ++G.n_back; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::grammar_finish, const A&...) { G.grammar_finish = true; }
        template <typename... A>
        void on(ghandler&, lexy::parse_events::grammar_cancel, const A&...) { G.grammar_cancel = true; }
        template <typename Event, typename... Args>
        int on(ghandler&, Event, const Args&...)
        {
            return 0;
        }
    };
    template <typename Production, typename State>
    using value_callback = lexy::production_value_callback<Production, State>;

    template <typename Result, typename T>
    Result get_result(bool ok, T&& v) &&
    {
        return Result{ok, true, static_cast<T&&>(v)};
    }
    template <typename Result>
    Result get_result(bool ok) &&
    {
        return Result{ok, false, {}};
    }
};
struct gvoid {};
template <typename T>
struct gresult
{
    bool ok;
    bool has;
    T    value;
};
template <>
struct gresult<void>
{
    bool  ok;
    bool  has;
    gvoid value;
};

// Parses Production on reader with all events recorded; the reader is left where the parse stopped.
template <typename Production, typename Reader>
auto run(Reader& reader)
{
    return lexy::do_action<Production, gresult>(ghandler(), lexy::no_parse_state, reader);
}
template <typename Production, typename Reader, typename State>
auto run(Reader& reader, State& st)
{
    return lexy::do_action<Production, gresult>(ghandler(), &st, reader);
}

// Arbitrary input: n code units of arbitrary content, every n.
template <typename Encoding>
struct arb_input
{
    using char_type = typename Encoding::char_type;
    const char_type* data;
    u64              n;
    explicit arb_input(int) : data(nullptr), n(0) {} // a place for another one
    arb_input()
    {
        n = vc_nd64("len");
        vc_assume(n <= (u64(1) << 58));
        data = static_cast<const char_type*>(vc_array("in", n * sizeof(char_type)));
        ghost_reset(data, sizeof(char_type));
        vc_track(n);
        if (sizeof(char_type) > 1)
            vc_track(n * sizeof(char_type));
    }
    auto reader() const { return lexy::string_input<Encoding>(data, data + n).reader(); }
    // code unit i as an unsigned number; arbitrary when out of range
    u32 at(u64 i) const;
};
extern "C" u8  vc_rd8(const void* p, u64 byte_off, u64 size);
extern "C" u16 vc_rd16(const void* p, u64 byte_off, u64 size);
extern "C" u32 vc_rd32(const void* p, u64 byte_off, u64 size);
template <typename E>
inline u32 arb_input<E>::at(u64 i) const
{
    if constexpr (sizeof(char_type) == 1)
        return vc_rd8(data, i, n);
    else if constexpr (sizeof(char_type) == 2)
        return vc_rd16(data, 2 * i, 2 * n);
    else
        return vc_rd32(data, 4 * i, 4 * n);
}

// Arbitrary input stored the way lexy::buffer stores it (property P02): n code units, none of which is the
// end-of-input marker, followed by end-of-input markers up to the size the buffer allocates.  The reader is
// the buffer's own reader, i.e. the one that looks at several code units at once.
inline const void* AB_data;
inline u64         AB_n, AB_total;
template <typename E>
inline u32 ab_at(u64 i)
{
    constexpr auto w = sizeof(typename E::char_type);
    if constexpr (w == 1)
        return vc_rd8(AB_data, i, AB_total);
    else
        return vc_rd32(AB_data, 4 * i, 4 * AB_total);
}
template <typename E>
inline bool ab_wf(u64 i)
{
    constexpr u32 eof = u32(typename E::int_type(E::eof())) & (sizeof(typename E::char_type) == 1 ? 0xFFu : 0xFFFFFFFFu);
    // (the second conjunct is a consequence of i < AB_n that the solver need not rediscover)
    return ((ab_at<E>(i) == eof) == (i >= AB_n));
}
template <typename Encoding>
struct arb_buffer
{
    using char_type = typename Encoding::char_type;
    const char_type* data;
    u64              n;
    arb_buffer()
    {
        n = vc_nd64("len");
        vc_assume(n <= (u64(1) << 58));
        AB_n     = n;
        AB_total = lexy::_detail::round_size_for_swar(n + 1);
        AB_data = data = static_cast<const char_type*>(vc_array("in", AB_total * sizeof(char_type)));
#ifdef VC_NATIVE
        for (u64 i = 0; i < AB_total; ++i)
        {
            auto& c = const_cast<char_type*>(data)[i];
            if (i >= n)
                c = char_type(Encoding::eof());
            else if (c == char_type(Encoding::eof()))
                c = 0;
        }
#else
        vc_axiom(data, sizeof(char_type), AB_total, &ab_wf<Encoding>);
#endif
        ghost_reset(data, sizeof(char_type));
        vc_track(n);
        if (sizeof(char_type) > 1)
            vc_track(n * sizeof(char_type));
    }
    auto reader() const { return lexy::input_reader<lexy::buffer<Encoding>>(data); }
    u32  at(u64 i) const { return ab_at<Encoding>(i); }
};
#endif

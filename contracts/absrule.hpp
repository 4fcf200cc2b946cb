// Abstract rules: a rule is represented by its contract only, so what is proved about a combinator holds for
// every rule that satisfies the contract.
//
// Contract of abs<Id> at position p of an input of n code units:
//   cond(p)  the branch condition: try_parse() returns it and consumes nothing
//   ok(p)    whether finish()/parse() succeeds
//   end(p)   p <= end(p) <= n, where it stops (on success or failure)
//            ids from 10 on make progress: p < end(p) if ok(p) or cond(p)
//   errs(p)  how many errors it reports although it succeeds (it recovered); a failure reports one more
// On success it produces the value {Id, p} and continues with the next parser.
#ifndef VC_ABSRULE_HPP
#define VC_ABSRULE_HPP
#include "harness.hpp"

inline u64 A_n; // length of the input
// if set, evaluating a condition at p looks at the input there: facts about that position become available
inline const void* A_touch;
inline void        touch(u64 p)
{
    if (A_touch != nullptr)
        (void)vc_rd8(A_touch, p, A_n);
}
struct aval
{
    u32 id;
    u64 pos;
};
inline bool r_cond(u32 id, u64 p) { return vc_uf2_1("cond", id, p); }
inline bool r_ok(u32 id, u64 p) { return vc_uf2_1("ok", id, p); }
inline u64  r_errs(u32 id, u64 p) { return vc_uf2_1("errs", id, p) ? 1 : 0; }
inline u64  r_end(u32 id, u64 p)
{
    u64 e = vc_uf2_64("end", id, p);
#ifdef VC_NATIVE
    if (p <= A_n && (e < p || e > A_n))
        e = p + e % (A_n - p + 1);
    if (id >= 10 && (r_ok(id, p) || r_cond(id, p)) && e == p && p < A_n)
        e = p + 1;
#endif
    vc_assume((p > A_n) | ((p <= e) & (e <= A_n)));
    if (id >= 10)
        vc_assume(!(r_ok(id, p) | r_cond(id, p)) | (p < e));
    return e;
}

template <u32 Id>
struct abs_error
{
    static LEXY_CONSTEVAL auto name() { return "abs"; }
};

// monitors: called when a rule is parsed for real (after its condition was checked)
struct no_mon
{
    static void commit(u32, u64) {}
    static void done(u32, u64, u64, bool) {}
};

template <u32 Id, typename Mon, bool Value>
struct abs_impl
{
    // returns whether to continue
    template <typename Context, typename Reader>
    static bool go(Context& context, Reader& reader, u64 p)
    {
        Mon::commit(Id, p);
        u64  e  = r_end(Id, p);
        bool ok = r_ok(Id, p);
        if (r_errs(Id, p) != 0)
        {
            auto err = lexy::error<Reader, abs_error<Id>>(reader.position());
            context.on(lexy::parse_events::error{}, err);
        }
        reader.reset(typename Reader::marker{reader.position() + (e - p)});
        if (!ok)
        {
            auto err = lexy::error<Reader, abs_error<Id>>(reader.position());
            context.on(lexy::parse_events::error{}, err);
        }
        Mon::done(Id, p, e, ok);
        return ok;
    }
    template <typename NextParser>
    struct p
    {
        template <typename Context, typename Reader, typename... Args>
        static bool parse(Context& context, Reader& reader, Args&&... args)
        {
            u64 pos = off(reader.position());
            if (!go(context, reader, pos))
                return false;
            if constexpr (Value)
                return NextParser::parse(context, reader, static_cast<Args&&>(args)..., aval{Id, pos});
            else
                return NextParser::parse(context, reader, static_cast<Args&&>(args)...);
        }
    };
    template <typename Reader>
    struct bp
    {
        // protocol of branch parsers: try_parse(), then finish() if it returned true, cancel() otherwise
        u8 taken = 0;
        template <typename ControlBlock>
        bool try_parse(const ControlBlock*, const Reader& reader)
        {
            touch(off(reader.position()));
            return (taken = r_cond(Id, off(reader.position())));
        }
        template <typename Context>
        void cancel(Context&)
        {
            vc_assert(taken == 0, "a branch that was taken is not cancelled");
        }
        template <typename NextParser, typename Context, typename... Args>
        bool finish(Context& context, Reader& reader, Args&&... args)
        {
            vc_assert(r_cond(Id, off(reader.position())), "a branch is only taken where its condition holds");
            return p<NextParser>::parse(context, reader, static_cast<Args&&>(args)...);
        }
    };
};
template <u32 Id, typename Mon = no_mon, bool Value = true>
struct abs_branch : abs_impl<Id, Mon, Value>, lexyd::branch_base
{};
template <u32 Id, typename Mon = no_mon, bool Value = true>
struct abs_rule : abs_impl<Id, Mon, Value>, lexyd::rule_base
{};
// tokens: cond(p) is whether it matches, end(p) where; reports one error otherwise
template <u32 Id>
struct abs_token : lexyd::token_base<abs_token<Id>>
{
    template <typename Reader>
    struct tp
    {
        typename Reader::marker end;
        explicit tp(const Reader& r) : end(r.current()) {}
        bool try_parse(Reader r)
        {
            u64 p = off(r.position());
            touch(p);
            end   = typename Reader::marker{r.position() + (r_end(Id, p) - p)};
            return r_cond(Id, p);
        }
        template <typename Context>
        void report_error(Context& context, const Reader& reader)
        {
            auto err = lexy::error<Reader, abs_error<Id>>(reader.position(), end.position());
            context.on(lexy::parse_events::error{}, err);
        }
    };
};

// identification of errors
template <>
inline constexpr u32 tag_id<lexy::exhausted_choice> = 1;
template <>
inline constexpr u32 tag_id<lexy::unexpected_trailing_separator> = 2;
template <>
inline constexpr u32 tag_id<lexy::peek_failure> = 3;
template <>
inline constexpr u32 tag_id<lexy::unexpected> = 4;
template <>
inline constexpr u32 tag_id<lexy::lookahead_failure> = 5;
template <>
inline constexpr u32 tag_id<lexy::combination_duplicate> = 6;
template <>
inline constexpr u32 tag_id<lexy::max_recursion_depth_exceeded> = 7;
template <>
inline constexpr u32 tag_id<lexy::missing_token> = 8;
struct my_error
{
    static LEXY_CONSTEVAL auto name() { return "my"; }
};
template <>
inline constexpr u32 tag_id<my_error> = 9;
template <u32 Id>
inline constexpr u32 tag_id<abs_error<Id>> = 100 + Id;

// the result of a production: its values in order
struct avals
{
    u32  n;
    aval v[10];
};
inline u64 CB_calls;
struct acollect
{
    using return_type = avals;
    static aval conv(aval v) { return v; }
    static aval conv(lexy::nullopt) { return {1000, 0}; }
    static aval conv(const avals& v) { return {2000 + v.n, v.n > 0 ? v.v[0].pos : 0}; }
    template <typename Reader>
    static aval conv(lexy::lexeme<Reader> l) { return {3000 + u32(off(l.end())), off(l.begin())}; }
    template <typename T>
    static aval conv(const T* p) { return {4000, off(p)}; }
    template <typename... T>
    avals operator()(const T&... t) const
    {
        ++CB_calls;
        avals r = {};
        ((r.v[r.n++] = conv(t)), ...);
        return r;
    }
};
#endif

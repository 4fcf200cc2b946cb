// Denotational semantics of the combinators: what a rule does to (position, errors, values), written without
// looking at how lexy schedules branch parsers and continuations, and the contract that compares the two.
#ifndef VC_SEM_HPP
#define VC_SEM_HPP
#include "absrule.hpp"
namespace dsl = lexy::dsl;

// --- semantics ------------------------------------------------------------------------------------------
struct out
{
    bool  ok;
    u64   pos, nerr, err_pos, err_end;
    u32   err_tag;
    avals vals;
    u64   rec_start, rec_finish, rec_cancel, etok, etok_begin, etok_end; // recovery
    u64   whole; // length of the input
};
inline void s_err(out& o, u32 tag, u64 b, u64 e)
{
    ++o.nerr;
    o.err_tag = tag;
    o.err_pos = b;
    o.err_end = e;
}
inline void s_val(out& o, aval v) { o.vals.v[o.vals.n++] = v; }
// component rule
template <u32 Id, bool Value = true>
struct R
{
    static bool cond(const out& o) { return r_cond(Id, o.pos); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        u64 p = o.pos;
        if (r_errs(Id, p) != 0)
            s_err(o, 100 + Id, p, p);
        o.pos = r_end(Id, p);
        if (r_ok(Id, p))
        {
            if (Value)
                s_val(o, {Id, p});
        }
        else
        {
            s_err(o, 100 + Id, o.pos, o.pos);
            o.ok = false;
        }
    }
};
// token
template <u32 Id>
struct T
{
    static bool cond(const out& o) { return r_cond(Id, o.pos); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        u64 p = o.pos;
        o.pos = r_end(Id, p);
        if (!r_cond(Id, p))
        {
            s_err(o, 100 + Id, p, o.pos);
            ++o.etok;
            o.etok_begin = p;
            o.etok_end   = o.pos;
            o.ok = false;
        }
    }
};
template <typename... S>
struct Seq
{
    static void run(out& o) { (S::run(o), ...); }
};
// condition >> rest
template <typename C, typename... S>
struct Br
{
    static bool cond(const out& o) { return C::cond(o); }
    static void run(out& o)
    {
        C::run(o);
        (S::run(o), ...);
    }
};
struct Else
{
    static bool cond(const out&) { return true; }
    static void run(out&) {}
};
// ordered choice: the first alternative whose condition holds, and only that one
template <typename... A>
struct Alt
{
    static bool cond(const out& o) { return (A::cond(o) | ...); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        bool taken = false;
        ((!taken && A::cond(o) ? (void)(taken = true, A::run(o)) : (void)0), ...);
        if (!taken)
        {
            s_err(o, 1, o.pos, o.pos);
            o.ok = false;
        }
    }
};
template <typename A>
struct Opt
{
    static void run(out& o)
    {
        if (!o.ok)
            return;
        if (A::cond(o))
            A::run(o);
        else
            s_val(o, {1000, 0});
    }
};
template <typename A>
struct If
{
    static void run(out& o)
    {
        if (o.ok && A::cond(o))
            A::run(o);
    }
};
struct Null
{
    static void run(out& o)
    {
        if (o.ok)
            s_val(o, {1000, 0});
    }
};
// must(A).error<my_error>
template <typename A>
struct Must
{
    static bool cond(const out& o) { return A::cond(o); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        if (A::cond(o))
            return A::run(o);
        s_err(o, 9, o.pos, o.pos);
        o.ok = false;
    }
};
// error<my_error>(token)
template <u32 Id = 0>
struct Err
{
    static bool cond(const out&) { return true; }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        s_err(o, 9, o.pos, Id == 0 ? o.pos : r_end(Id, o.pos));
        o.ok = false;
    }
};
template <u32 Id>
struct Cap
{
    static bool cond(const out& o) { return r_cond(Id, o.pos); }
    static void run(out& o)
    {
        u64 p = o.pos;
        T<Id>::run(o);
        if (o.ok)
            s_val(o, {3000 + u32(o.pos), p});
    }
};
struct Pos
{
    static bool cond(const out&) { return true; }
    static void run(out& o)
    {
        if (o.ok)
            s_val(o, {4000, o.pos});
    }
};
// position(rule)
template <typename A>
struct PosR
{
    static bool cond(const out& o) { return A::cond(o); }
    static void run(out& o)
    {
        Pos::run(o);
        A::run(o);
    }
};
// peek(token), peek_not(token)
template <u32 Id>
struct Peek
{
    static bool cond(const out& o) { return r_cond(Id, o.pos); }
    static void run(out& o)
    {
        if (o.ok && !cond(o))
            s_err(o, 3, o.pos, r_end(Id, o.pos));
    }
};
template <u32 Id>
struct PeekNot
{
    static bool cond(const out& o) { return !r_cond(Id, o.pos); }
    static void run(out& o)
    {
        if (o.ok && !cond(o))
        {
            s_err(o, 4, o.pos, r_end(Id, o.pos));
            ++o.rec_start;
            ++o.rec_finish;
            ++o.etok;
            o.etok_begin = o.pos;
            o.etok_end   = r_end(Id, o.pos);
            o.pos = r_end(Id, o.pos);
        }
    }
};
// a production: its values are handed to its own callback, whose result is the one value of the production
template <typename A>
struct Prod
{
    static bool cond(const out& o) { return A::cond(o); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        avals keep = o.vals;
        o.vals     = avals{};
        A::run(o);
        avals inner = o.vals;
        o.vals      = keep;
        if (o.ok)
            s_val(o, {2000 + inner.n, inner.n > 0 ? inner.v[0].pos : 0});
    }
};

// --- contract -------------------------------------------------------------------------------------------
template <typename Rule>
struct prod
{
    static constexpr auto rule  = Rule{};
    static constexpr auto value = acollect{};
};
static arb_input<lexy::utf8_encoding> SemIn{0};
template <typename Rule, typename S>
static void contract()
{
    arb_input<lexy::utf8_encoding> in;
    A_n      = in.n;
    CB_calls = 0;
    u64 p    = vc_nd64("start");
    vc_range("start", 0, 4);
    vc_assume(p <= in.n);
    auto reader = in.reader();
    reader.reset({reader.position() + p});
    out o   = {};
    o.ok    = true;
    o.pos   = p;
    o.whole = in.n;
    SemIn   = in;
    S::run(o);
    auto r = run<prod<Rule>>(reader);

    vc_assert(r.ok == o.ok, "succeeds iff the semantics say so");
    vc_assert(off(reader.position()) == o.pos, "stops where the semantics say so");
    vc_assert(G.n_err == o.nerr, "number of errors");
    if (o.nerr > 0)
        vc_assert((G.err_tag == o.err_tag) & (G.err_pos == o.err_pos) & (G.err_end == o.err_end), "the error and its location");
    vc_assert((G.n_rec_start == o.rec_start) & (G.n_rec_finish == o.rec_finish) & (G.n_rec_cancel == o.rec_cancel), "recovery events");
    vc_assert((G.n_errtok == o.etok) & ((o.etok == 0) | ((G.etok_begin == o.etok_begin) & (G.etok_end == o.etok_end))),
              "the input discarded while recovering");
    vc_assert(r.ok == r.has, "a value iff it succeeds");
    vc_assert(r.ok | (G.n_err > 0), "failure implies a reported error");
    if (o.ok)
    {
        vc_assert(r.value.n == o.vals.n, "number of values");
#pragma clang loop unroll(full)
        for (u32 i = 0; i < 10; ++i)
            if (i < o.vals.n)
                vc_assert((r.value.v[i].id == o.vals.v[i].id) & (r.value.v[i].pos == o.vals.v[i].pos), "values in order");
    }
    vc_assert((G.depth == 0) & (G.grammar_finish == r.ok) & (G.grammar_cancel != r.ok), "events are balanced");
    vc_cover(r.ok, "success");
}
#define U(name, rule, ...) VU(name) { using r_t = decltype(rule); contract<r_t, __VA_ARGS__>(); }

constexpr auto r1 = abs_rule<1>{};
constexpr auto r2 = abs_rule<2>{};
constexpr auto r3 = abs_rule<3>{};
constexpr auto r4 = abs_rule<4>{};
constexpr auto r5 = abs_rule<5>{};
constexpr auto r6 = abs_rule<6>{};
constexpr auto r7 = abs_rule<7>{};
constexpr auto r8 = abs_rule<8>{};
constexpr auto r9 = abs_rule<9>{};
constexpr auto b1 = abs_branch<11>{};
constexpr auto b2 = abs_branch<12>{};
constexpr auto b3 = abs_branch<13>{};
constexpr auto b4 = abs_branch<14>{};
constexpr auto t1 = abs_token<21>{};
constexpr auto t2 = abs_token<22>{};
constexpr auto t3 = abs_token<23>{};
using B1 = R<11>;
using B2 = R<12>;
using B3 = R<13>;
using B4 = R<14>;
using T1 = T<21>;
using T2 = T<22>;
using T3 = T<23>;
#endif

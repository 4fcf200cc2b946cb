// Property: lists, loops and repetitions, for arbitrary component rules (absrule.hpp): monitor.hpp.
#include "monitor.hpp"

#if PART == 0
using m_plain = list_mon<no_sep, true>;
using m_sep   = list_mon<sep_forbid, true>;
using m_sepr  = list_mon<sep_forbid, false>;
using m_tsep  = list_mon<sep_trailing, true>;
using m_vsep  = list_mon<sep_forbid, true, true, true>;
using m_noval = list_mon<sep_forbid, true, false>;
using o_plain = list_mon<no_sep, true, true, false, true>;
using o_sep   = list_mon<sep_forbid, true, true, false, true>;
using o_tsep  = list_mon<sep_trailing, true, true, false, true>;
UL(list, m_plain, pre + dsl::list(item) + post)
UL(list_sep, m_sep, pre + dsl::list(item, dsl::sep(sep)) + post)
UL(list_sep_rule, m_sepr, pre + dsl::list(ritem, dsl::sep(sep)) + post)
UL(list_tsep, m_tsep, pre + dsl::list(item, dsl::trailing_sep(sep)) + post)
UL(list_vsep, m_vsep, pre + dsl::list(item, dsl::sep(vsep)) + post)
UL(list_noval, m_noval, pre + dsl::list(nitem, dsl::sep(sep)) + post)
UL(list_opt, o_plain, pre + dsl::opt(dsl::list(item)) + post)
UL(list_opt_sep, o_sep, pre + dsl::opt(dsl::list(item, dsl::sep(sep))) + post)
UL(list_opt_tsep, o_tsep, pre + dsl::opt(dsl::list(item, dsl::trailing_sep(sep))) + post)
#elif PART == 1
// --- loops
template <bool Least, bool CondLast = true>
struct while_mon
{
    static void fail(u64) { vc_assert(M.state == st_failed, "fails only because a component failed"); }
    static void commit(u32 id, u64 p)
    {
        vc_assert(p == M.pos, "parsing continues where the previous rule stopped");
        if (id == PRE)
            vc_assert(M.state == st_start, "the rule before is parsed first");
        else if (id == ITEM)
            vc_assert((M.state == st_first) | (M.state == st_item), "an item may be parsed here");
        else if (id == THEN)
            vc_assert(M.state == st_sep, "the rest of an item may be parsed here");
        else
        {
            vc_assert((M.state == st_item) | (!Least & (M.state == st_first)), "a loop ends after an item");
            vc_assert(!r_cond(ITEM, p), "a loop ends only where its condition does not hold");
            vc_assert(G.n_err == M.nerr, "no other error");
        }
    }
    // HasThen: an item is ITEM followed by THEN
    static inline bool then = false;
    static void done(u32 id, u64 p, u64 e, bool ok)
    {
        M.pos = e;
        M.nerr += r_errs(id, p) + (ok ? 0 : 1);
        if (id == PRE)
            M.state = st_first;
        else if (id == ITEM)
            M.state = then ? st_sep : st_item;
        else if (id == THEN)
            M.state = st_item;
        else
            M.state = st_done;
        if (!ok)
            M.state = st_failed;
    }
};
using w_any = while_mon<false>;
using w_one = while_mon<true>;
U0(while, w_any, pre + dsl::while_(nitem) + post)
U0(while_one, w_one, pre + dsl::while_one(nitem) + post)
VU(while_then)
{
    RULES(w_any)
    w_any::then = true;
    contract0<decltype(pre + dsl::while_(nitem >> abs_rule<THEN, w_any, false>{}) + post), w_any>();
}
VU(while_one_then)
{
    RULES(w_one)
    w_one::then = true;
    contract0<decltype(pre + dsl::while_one(nitem >> abs_rule<THEN, w_one, false>{}) + post), w_one>();
}
// do_while(item, sep) = item (sep item)*
using m_do = list_mon<sep_forbid, false, false>;
U0(do_while, m_do, pre + dsl::do_while(nritem, sep) + post)
U0(do_while_br, m_do, pre + dsl::do_while(nitem, sep) + post)
// loop(item | brk >> break_)
template <bool Else>
struct loop_mon
{
    static void fail(u64 p)
    {
        if (!Else & (M.state == st_item))
        {
            vc_assert(!r_cond(ITEM, p) & !r_cond(BRK, p), "the choice is exhausted");
            vc_assert((G.err_tag == 1) & (G.err_pos == p), "which is reported");
            ++M.nerr;
        }
        else
            vc_assert(M.state == st_failed, "fails only because a component failed");
    }
    static void commit(u32 id, u64 p)
    {
        vc_assert(p == M.pos, "parsing continues where the previous rule stopped");
        if (id == PRE)
            vc_assert(M.state == st_start, "the rule before is parsed first");
        else if (id == ITEM)
            vc_assert(M.state == st_item, "an item may be parsed here");
        else if (id == BRK)
            vc_assert((M.state == st_item) & !r_cond(ITEM, p), "the break branch is taken only if the item does not match");
        else
        {
            if (Else)
                vc_assert((M.state == st_item) & !r_cond(ITEM, p), "the loop ends with break_");
            else
                vc_assert(M.state == st_sep, "the loop ends with break_");
            vc_assert(G.n_err == M.nerr, "no other error");
        }
    }
    static void done(u32 id, u64 p, u64 e, bool ok)
    {
        M.pos = e;
        M.nerr += r_errs(id, p) + (ok ? 0 : 1);
        if (id == PRE || id == ITEM)
            M.state = st_item;
        else if (id == BRK)
            M.state = st_sep;
        else
            M.state = st_done;
        if (!ok)
            M.state = st_failed;
    }
};
using l_brk  = loop_mon<false>;
using l_else = loop_mon<true>;
U0(loop, l_brk, pre + dsl::loop(nitem | brk >> dsl::break_) + post)
U0(loop_else, l_else, pre + dsl::loop(nitem | dsl::else_ >> dsl::break_) + post)
#elif PART == 2
// --- repeat: COUNT produces the number of repetitions
enum : u32 { COUNT = 5 };
static u64 count_at(u64 p)
{
    u64 c = vc_uf1_64("count", p);
#ifdef VC_NATIVE
    c %= 5;
#endif
    return c;
}
template <typename S>
struct rep_mon
{
    static void fail(u64) { vc_assert(M.state == st_failed, "fails only because a component failed"); }
    static void commit(u32 id, u64 p)
    {
        vc_assert(p == M.pos, "parsing continues where the previous rule stopped");
        vc_assert(M.pend_id == 0, "every value reaches the sink before parsing continues");
        if (id == PRE)
            vc_assert(M.state == st_start, "the rule before is parsed first");
        else if (id == ITEM)
        {
            vc_assert(M.items < M.count, "not more items than requested");
            vc_assert((M.state == st_sep) | ((M.state == st_item) & (!S::has | (M.items == 0))), "an item may be parsed here");
        }
        else if (id == SEP)
        {
            vc_assert(S::has & (M.state == st_item) & (M.items > 0), "a separator may be parsed here");
            if (M.items == M.count)
                vc_assert((S::trailing_err | S::trailing_ok) & r_cond(SEP, p), "a trailing separator is consumed only where there is one");
        }
        else
        {
            vc_assert(M.items == M.count, "exactly as many items as requested");
            if (M.state == st_item)
                vc_assert((M.items == 0) | !(S::trailing_err | S::trailing_ok) | !r_cond(SEP, p), "a trailing separator is looked for");
            else
            {
                vc_assert(M.state == st_sep, "ends after an item or a trailing separator");
                if (S::trailing_err)
                {
                    ++M.nerr;
                    vc_assert((G.err_tag == 2) & (G.err_pos == M.sep_begin) & (G.err_end == p), "a trailing separator is reported");
                }
            }
            vc_assert(G.n_err == M.nerr, "no other error");
        }
    }
    static void done(u32 id, u64 p, u64 e, bool ok)
    {
        M.pos = e;
        M.nerr += r_errs(id, p) + (ok ? 0 : 1);
        if (id == PRE)
        {
            M.state = st_item;
            M.count = count_at(p);
            M.first_pos = e;
        }
        else if (id == ITEM)
        {
            M.state = st_item;
            ++M.items;
        }
        else if (id == SEP)
        {
            M.state     = st_sep;
            M.sep_begin = p;
        }
        else
        {
            M.state     = st_done;
            M.last_item = p;
        }
        if (!ok)
            M.state = st_failed;
    }
};
// as rep_mon, but ITEM produces values
template <typename S>
struct repv_mon : rep_mon<S>
{
    static void done(u32 id, u64 p, u64 e, bool ok)
    {
        rep_mon<S>::done(id, p, e, ok);
        if (id == ITEM && ok)
        {
            M.pend_id  = ITEM;
            M.pend_pos = p;
        }
    }
};
template <typename Mon>
struct count_rule : lexyd::rule_base
{
    template <typename NextParser>
    struct p
    {
        template <typename Context, typename Reader, typename... Args>
        static bool parse(Context& context, Reader& reader, Args&&... args)
        {
            u64 pos = off(reader.position());
            if (!abs_impl<PRE, Mon, false>::go(context, reader, pos))
                return false;
            return NextParser::parse(context, reader, static_cast<Args&&>(args)..., std::size_t(count_at(pos)));
        }
    };
};
struct sep_ignore
{
    static constexpr bool has = true, trailing_ok = false, trailing_err = false;
};
template <typename Rule, typename Mon, int Kind>
static void contract_rep()
{
    u64  endpos;
    auto r = go<Rule, Mon>(endpos);
    if (r.ok)
    {
        if (Kind == 0)
        {
            vc_assert(r.value.n == 1, "number of values");
            vc_assert(r.value.v[0].id == POST, "values in order");
        }
        else
        {
            vc_assert(r.value.n == 2, "number of values");
            vc_assert(r.value.v[1].id == POST, "values in order");
            if (Kind == 1)
                vc_assert((r.value.v[0].id == 5000) & (r.value.v[0].pos == M.values) & (M.values == M.count), "a list of all values");
            else
                vc_assert((r.value.v[0].pos == M.first_pos) & (r.value.v[0].id == 3000 + u32(M.last_item)), "the captured input");
        }
    }
}
#define UR(name, mon, kind, rule) \
    VU(name) \
    { \
        RULES(mon) \
        constexpr auto cnt = count_rule<mon>{}; \
        contract_rep<decltype(rule), mon, kind>(); \
    }
using rp  = rep_mon<no_sep>;
using rs  = rep_mon<sep_forbid>;
using rt  = rep_mon<sep_trailing>;
using ri  = rep_mon<sep_ignore>;
using vp  = repv_mon<no_sep>;
using vs  = repv_mon<sep_forbid>;
using vt  = repv_mon<sep_trailing>;
using vi  = repv_mon<sep_ignore>;
UR(rep, rp, 0, dsl::repeat(cnt)(nritem) + post)
UR(rep_sep, rs, 0, dsl::repeat(cnt)(nritem, dsl::sep(sep)) + post)
UR(rep_tsep, rt, 0, dsl::repeat(cnt)(nritem, dsl::trailing_sep(sep)) + post)
UR(rep_isep, ri, 0, dsl::repeat(cnt)(nritem, dsl::ignore_trailing_sep(sep)) + post)
UR(rep_list, vp, 1, dsl::repeat(cnt).list(ritem) + post)
UR(rep_list_sep, vs, 1, dsl::repeat(cnt).list(ritem, dsl::sep(sep)) + post)
UR(rep_list_tsep, vt, 1, dsl::repeat(cnt).list(ritem, dsl::trailing_sep(sep)) + post)
UR(rep_list_isep, vi, 1, dsl::repeat(cnt).list(item, dsl::ignore_trailing_sep(sep)) + post)
UR(rep_cap, rp, 2, dsl::repeat(cnt).capture(nritem) + post)
UR(rep_cap_sep, rs, 2, dsl::repeat(cnt).capture(nritem, dsl::sep(sep)) + post)
#endif

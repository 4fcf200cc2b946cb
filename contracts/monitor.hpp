// Monitors: contracts of repeating rules, for arbitrary component rules (absrule.hpp).
// The oracle is a monitor: the grammar of the repetition as an automaton over "item parsed at p", "separator
// parsed at p", driven by the calls lexy makes to the component rules.  Its assertions are the preconditions of
// the component rules (parsed only where the repetition allows it, exactly where the previous one stopped).
#ifndef VC_MONITOR_HPP
#define VC_MONITOR_HPP
#include "absrule.hpp"
namespace dsl = lexy::dsl;

enum : u32
{
    PRE  = 1, // rule before
    ITEM = 11,
    SEP  = 12,
    POST = 3, // rule after
    THEN = 4,
    BRK  = 15,
};
enum : u64
{
    st_start,  // nothing parsed yet
    st_first,  // the repetition must start here
    st_item,   // just after an item
    st_sep,    // just after a separator
    st_done,   // continued after the repetition
    st_failed, // a component failed
};
struct monitor
{
    u64 state, pos, nerr;
    u64 items, seps;
    u64 sep_begin;            // where the last separator started
    u64 pend_id, pend_pos;    // value produced, not yet in the sink
    u64 values;               // values in the sink
    u64 first_pos, last_item; // of the items
    u64 count;                // of repeat()
    u64 sink_made, sink_finished;
};
static monitor M;

struct alist
{
    u64 n;
};
struct asink
{
    using return_type = alist;
    void operator()(aval v)
    {
        vc_assert((M.pend_id == v.id) & (M.pend_pos == v.pos), "the sink gets every value, in order");
        M.pend_id = 0;
        ++M.values;
    }
    alist finish() &&
    {
        vc_assert(M.pend_id == 0, "all values are in the sink when it is finished");
        ++M.sink_finished;
        return {M.values};
    }
};
struct lcollect : acollect
{
    using acollect::conv;
    static aval conv(alist l) { return {5000, l.n}; }
    asink sink() const
    {
        ++M.sink_made;
        return {};
    }
    template <typename... T>
    avals operator()(const T&... t) const
    {
        ++CB_calls;
        avals r = {};
        ((r.v[r.n++] = conv(t)), ...);
        return r;
    }
};

// kinds of separators
struct no_sep
{
    static constexpr bool has = false, trailing_ok = false, trailing_err = false;
};
struct sep_forbid
{
    static constexpr bool has = true, trailing_ok = false, trailing_err = true;
};
struct sep_trailing
{
    static constexpr bool has = true, trailing_ok = true, trailing_err = false;
};
// ItemBranch: whether the end of the list can be detected by the item
template <typename S, bool ItemBranch, bool Values = true, bool SepValues = false, bool Optional = false>
struct list_mon
{
    static void fail(u64) { vc_assert(M.state == st_failed, "fails only because a component failed"); }
    static void commit(u32 id, u64 p)
    {
        vc_assert(p == M.pos, "parsing continues where the previous rule stopped");
        vc_assert(M.pend_id == 0, "every value reaches the sink before parsing continues");
        if (id == PRE)
            vc_assert(M.state == st_start, "the rule before is parsed first");
        else if (id == ITEM)
            vc_assert((M.state == st_first) | (M.state == st_sep) | ((M.state == st_item) & !S::has), "an item may be parsed here");
        else if (id == SEP)
            vc_assert(S::has & (M.state == st_item), "a separator may be parsed here");
        else
        {
            bool end_item = (M.state == st_item) & !r_cond(S::has ? SEP : ITEM, p);
            bool end_sep  = S::has & (M.state == st_sep) & !r_cond(ITEM, p) & ItemBranch;
            bool end_opt  = Optional & (M.state == st_first) & !r_cond(ITEM, p);
            vc_assert(end_item | end_sep | end_opt, "the list ends only where it cannot continue");
            if (end_sep && S::trailing_err)
            {
                ++M.nerr;
                vc_assert((G.err_tag == 2) & (G.err_pos == M.sep_begin) & (G.err_end == p), "a trailing separator is reported");
            }
            vc_assert(G.n_err == M.nerr, "no other error");
        }
    }
    static void done(u32 id, u64 p, u64 e, bool ok)
    {
        M.pos = e;
        M.nerr += r_errs(id, p) + (ok ? 0 : 1);
        if (id == PRE)
            M.state = st_first;
        else if (id == ITEM)
        {
            M.state = st_item;
            ++M.items;
            if (ok & Values)
            {
                M.pend_id  = ITEM;
                M.pend_pos = p;
            }
        }
        else if (id == SEP)
        {
            M.state     = st_sep;
            M.sep_begin = p;
            ++M.seps;
            if (ok & SepValues)
            {
                M.pend_id  = SEP;
                M.pend_pos = p;
            }
        }
        else
            M.state = st_done;
        if (!ok)
            M.state = st_failed;
    }
};

template <typename Rule>
struct prod
{
    static constexpr auto rule  = Rule{};
    static constexpr auto value = lcollect{};
};
// invariants of the loops in terms of the ghost state
static bool i_first() { return M.state == st_first; }
static bool i_item() { return M.state == st_item; }
static bool i_sep() { return M.state == st_sep; }
static bool i_fi() { return (M.state == st_first) | (M.state == st_item); }
static bool i_le() { return M.items <= M.count; }
static bool i_le0() { return M.items > 0; }
static bool i_fp() { return M.first_pos <= M.pos; }
static bool i_vals() { return M.values == M.items; }
static bool i_brk(u64 x) { return ((x == 0) & (M.state == st_item)) | ((x == 1) & (M.state == st_sep)); }
static bool i_brk_else(u64 x) { return (x == 0) | ((x == 1) & !r_cond(ITEM, M.pos)); }
static bool i_err() { return M.nerr == G.n_err; }
static bool i_pend() { return M.pend_id == 0; }
static bool i_sink() { return (M.sink_made == 1) & (M.sink_finished == 0); }
static bool i_depth() { return (G.depth == 1) & !G.grammar_finish & !G.grammar_cancel; }
static bool i_pos(u64 o) { return o == M.pos; }
static bool i_count(u64 o) { return o == M.items; }
static void invariants()
{
    vc_ghost(&M);
    vc_ghost(&G);
    vc_use_inv0(&i_first);
    vc_use_inv0(&i_item);
    vc_use_inv0(&i_sep);
    vc_use_inv0(&i_fi);
    vc_use_inv0(&i_le);
    vc_use_inv0(&i_le0);
    vc_use_inv0(&i_fp);
    vc_use_inv0(&i_vals);
    vc_use_inv1(&i_brk);
    vc_use_inv1(&i_brk_else);
    vc_use_inv0(&i_err);
    vc_use_inv0(&i_pend);
    vc_use_inv0(&i_sink);
    vc_use_inv0(&i_depth);
    vc_use_inv1(&i_pos);
    vc_use_inv1(&i_count);
}
template <typename Rule, typename Mon>
static auto go(u64& endpos)
{
    arb_input<lexy::utf8_encoding> in;
    A_n   = in.n;
    M     = monitor();
    invariants();
    u64 p = vc_nd64("start");
    vc_range("start", 0, 4);
    vc_assume(p <= in.n);
    M.pos       = p;
    auto reader = in.reader();
    reader.reset({reader.position() + p});
    auto r = run<prod<Rule>>(reader);
    endpos = off(reader.position());
    vc_assert(r.ok == (M.state == st_done), "succeeds iff parsing got to the end");
    if (!r.ok)
        Mon::fail(endpos);
    vc_assert(endpos == M.pos, "stops where the last component stopped");
    vc_assert(G.n_err == M.nerr, "no further errors");
    vc_assert(r.ok == r.has, "a value iff it succeeds");
    vc_assert((G.depth == 0) & (G.grammar_finish == r.ok) & (G.grammar_cancel != r.ok), "events are balanced");
    vc_cover(r.ok, "success");
    vc_cover(!r.ok, "failure");
    return r;
}
// with a sink: value of PRE, the list, value of POST
template <typename Rule, typename Mon>
static void contract()
{
    u64  endpos;
    auto r = go<Rule, Mon>(endpos);
    if (r.ok)
    {
        vc_assert(r.value.n == 3, "number of values");
        vc_assert((r.value.v[0].id == PRE) & (r.value.v[2].id == POST), "values in order");
        if (r.value.v[1].id == 1000)
            vc_assert((M.items == 0) & (M.sink_made == 0), "an optional list is empty");
        else
        {
            vc_assert((M.sink_made == 1) & (M.sink_finished == 1), "one sink per list");
            vc_assert((r.value.v[1].id == 5000) & (r.value.v[1].pos == M.values), "the value of the list is what its sink returned");
        }
    }
}
// without
template <typename Rule, typename Mon>
static void contract0()
{
    u64  endpos;
    auto r = go<Rule, Mon>(endpos);
    if (r.ok)
    {
        vc_assert(r.value.n == 2, "number of values");
        vc_assert((r.value.v[0].id == PRE) & (r.value.v[1].id == POST), "values in order");
    }
    vc_assert(M.sink_made == 0, "no sink");
}
#define RULES(mon) \
    using mon_t          = mon; \
    constexpr auto pre   = abs_rule<PRE, mon_t>{}; \
    constexpr auto post  = abs_rule<POST, mon_t>{}; \
    constexpr auto item  = abs_branch<ITEM, mon_t>{}; \
    constexpr auto sep   = abs_branch<SEP, mon_t, false>{}; \
    constexpr auto vsep  = abs_branch<SEP, mon_t, true>{}; \
    constexpr auto ritem = abs_rule<ITEM, mon_t>{}; \
    constexpr auto nitem = abs_branch<ITEM, mon_t, false>{}; \
    constexpr auto nritem = abs_rule<ITEM, mon_t, false>{}; \
    constexpr auto brk   = abs_branch<BRK, mon_t, false>{}; \
    (void)pre, (void)post, (void)item, (void)sep, (void)vsep, (void)ritem, (void)nitem, (void)nritem, (void)brk;
#define UL(name, mon, rule) \
    VU(name) { RULES(mon) contract<decltype(rule), mon>(); }
#define U0(name, mon, rule) \
    VU(name) { RULES(mon) contract0<decltype(rule), mon>(); }
#endif

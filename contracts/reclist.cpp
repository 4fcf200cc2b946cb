// Property: lists with a terminator recover from every error of an item or separator (monitor.hpp).
#include "monitor.hpp"

enum : u32 { TERM = 16 };
enum : u64
{
    st_sepfail = 10, // a separator failed
    st_recover,      // something else failed: input is discarded from M.pos
};
struct rmon
{
    u64 rec, etok; // recoveries so far
    u64 rbegin;
    bool in_rec;
};
static rmon RM;
static arb_input<lexy::utf8_encoding> In{0};
static bool is_at(u64 q, char c) { return (q < In.n) & (u8(In.at(q)) == u8(c)); }
struct NoLim
{
    static bool at(u64) { return false; }
};
struct LimX
{
    static bool at(u64 q) { return is_at(q, '!') | is_at(q, ';'); }
};
// S: separator; B: whether the item is a branch; Opt: opt_list; L: limit
template <typename S, bool B, bool Opt, typename L>
struct rec_mon
{
    static bool limit(u64 q) { return (q >= In.n) | is_at(q, char(0xFF)) | L::at(q); }
    // recovery stops at q
    static bool resume(u64 q) { return S::has ? r_cond(SEP, q) : B && r_cond(ITEM, q); }
    static bool stop(u64 q) { return resume(q) | r_cond(TERM, q) | limit(q); }
    // F(q): the first stop at or after q, by recursion
    static u64  F(u64 q) { return vc_uf1_64("F", q); }
    static bool def(u64 q) { return (F(q) == (stop(q) ? q : F(q + 1))); }
    static bool inv_skip(u64 q) { return F(q) == F(M.pos); }
    static bool inv_begin(u64 q) { return (q == M.pos) & RM.in_rec; }
    static bool inv_rec() { return RM.rec == G.n_rec_start; }
    static bool inv_fin() { return (G.n_rec_start == G.n_rec_finish) & (G.n_rec_cancel == 0); }
    static bool inv_fin1() { return (G.n_rec_start == G.n_rec_finish + 1) & (G.n_rec_cancel == 0); }

    // of the main loop, whose state variable says what comes next
    static bool inv_loop() { return (M.state == st_item) | (M.state == st_sep) | recovering(); }
    static bool inv_opt() { return (M.state == st_first) | inv_loop(); }
    static bool case_item() { return M.state == st_item; }
    static bool case_sep() { return (M.state == st_item) & !r_cond(TERM, M.pos); }
    static bool case_trail() { return M.state == st_sep; }
    static bool case_next() { return (M.state == (S::has ? st_sep : st_item)) & !r_cond(TERM, M.pos); }
    static bool inv_sepbegin(u64 x) { return (M.state != st_sep) | (x == M.sep_begin); }
    static bool case_never() { return false; }
    static bool case_rec() { return recovering(); }
    // every recovery discards [M.pos, p)
    static void recovered(u64 p, bool ok)
    {
        vc_assert(F(M.pos) == p, "recovery stops at the first separator, item, terminator or limit");
        vc_assert((G.etok_begin == M.pos) & (G.etok_end == p), "what is discarded is marked as an error");
        ++RM.rec;
        vc_assert(G.n_rec_start == RM.rec, "recovery is started");
        vc_assert(ok ? (G.n_rec_finish == RM.rec) & (G.n_rec_cancel == 0) : (G.n_rec_finish + 1 == RM.rec) & (G.n_rec_cancel == 1),
                  "and finished iff it succeeds");
    }
    static bool recovering() { return (M.state == st_recover) | ((M.state == st_sepfail) & !(B & (M.pos == M.sep_begin) & r_cond(ITEM, M.pos))); }
    static void fail(u64 e)
    {
        if (M.state == st_failed)
            return;
        vc_assert(recovering(), "fails only because recovery failed or the terminator did");
        recovered(e, false);
        vc_assert(!resume(e) & !r_cond(TERM, e), "recovery fails only at a limit");
        M.pos = e;
    }
    static void commit(u32 id, u64 p)
    {
        vc_assert(M.pend_id == 0, "every value reaches the sink before parsing continues");
        if (recovering())
        {
            recovered(p, true);
            vc_assert(id == (S::has && r_cond(SEP, p) ? SEP : !S::has && B && r_cond(ITEM, p) ? ITEM : TERM), "parsing continues with what was found");
            M.pos   = p;
            M.state = st_recover;
            return;
        }
        vc_assert(p == M.pos, "parsing continues where the previous rule stopped");
        vc_assert(G.n_rec_start == RM.rec, "no recovery without an error");
        switch (id)
        {
        case PRE: vc_assert(M.state == st_start, "the rule before is parsed first"); break;
        case ITEM:
            vc_assert((M.state == st_first) | (M.state == st_sep) | (M.state == st_item) | (M.state == st_sepfail), "an item may be parsed here");
            if (M.state == st_first)
                vc_assert(!Opt | !r_cond(TERM, p), "a list is parsed only if the terminator does not follow");
            if (M.state == st_item)
                vc_assert(!S::has & !r_cond(TERM, p), "the next item, unless the terminator follows");
            if (M.state == st_sep)
                vc_assert(!r_cond(TERM, p), "the next item, unless the terminator follows");
            break;
        case SEP: vc_assert(S::has & (M.state == st_item) & !r_cond(TERM, p), "a separator, unless the terminator follows"); break;
        case TERM:
            vc_assert(r_cond(TERM, p), "the terminator matches");
            vc_assert((M.state == st_item) | (M.state == st_sep) | (Opt & (M.state == st_first)), "the terminator may follow");
            if (M.state == st_sep && S::trailing_err)
            {
                ++M.nerr;
                vc_assert((G.err_tag == 2) & (G.err_pos == M.sep_begin) & (G.err_end == p), "a trailing separator is reported");
            }
            break;
        default: vc_assert(M.state == st_done, "the rule after the terminator"); break;
        }
        vc_assert(G.n_err == M.nerr, "no other error");
    }
    static void done(u32 id, u64 p, u64 e, bool ok)
    {
        bool was_rec = M.state == st_recover;
        M.pos        = e;
        M.nerr += r_errs(id, p) + (ok ? 0 : 1);
        if (ok & (id == ITEM))
        {
            M.pend_id  = ITEM;
            M.pend_pos = p;
            ++M.items;
        }
        if (id == SEP)
            M.sep_begin = p;
        switch (id)
        {
        case PRE: M.state = ok ? st_first : st_failed; break;
        case ITEM: M.state = ok ? st_item : st_recover; break;
        case SEP: M.state = ok ? st_sep : was_rec ? st_recover : st_sepfail; break;
        default: M.state = ok ? st_done : st_failed; break;
        }
    }
};
template <typename Mon>
static void rinv()
{
    vc_ghost(&RM);
    vc_use_inv1(&Mon::inv_skip);
    vc_use_inv1(&Mon::inv_begin);
    vc_use_inv1(&Mon::inv_sepbegin);
    vc_use_inv0(&Mon::inv_loop);
    vc_use_inv0(&Mon::inv_opt);
    vc_use_case0(&Mon::case_item);
    vc_use_case0(&Mon::case_sep);
    vc_use_case0(&Mon::case_trail);
    vc_use_case0(&Mon::case_next);
    vc_use_case0(&Mon::case_rec);
    vc_use_case0(&Mon::case_never);
    vc_use_inv0(&Mon::inv_rec);
    vc_use_inv0(&Mon::inv_fin);
    vc_use_inv0(&Mon::inv_fin1);
}
template <typename Rule, typename Mon>
static void rcontract()
{
    arb_input<lexy::utf8_encoding> in;
    A_n = in.n;
    M   = monitor();
    RM  = rmon();
    In  = in;
    A_touch = in.data;
    invariants();
    rinv<Mon>();
    vc_axiom(in.data, 1, in.n, &Mon::def);
    u64 p = vc_nd64("start");
    vc_range("start", 0, 4);
    vc_assume(p <= in.n);
    vc_assume(Mon::F(in.n) == in.n);
    M.pos       = p;
    M.state     = st_first;
    auto reader = in.reader();
    reader.reset({reader.position() + p});
    auto r      = run<prod<Rule>>(reader);
    u64  endpos = off(reader.position());
    vc_assert(r.ok == (M.state == st_done), "succeeds iff parsing got to the end");
    if (!r.ok)
        Mon::fail(endpos);
    vc_assert(endpos == M.pos, "stops where the last component stopped");
    vc_assert(G.n_err == M.nerr, "no further errors");
    vc_assert(r.ok == r.has, "a value iff it succeeds");
    vc_assert((G.depth == 0) & (G.grammar_finish == r.ok) & (G.grammar_cancel != r.ok), "events are balanced");
    vc_cover(r.ok, "success");
    vc_cover(r.ok & (RM.rec > 0), "success after recovery");
    if (r.ok)
    {
        vc_assert(r.value.n == 2, "number of values");
        vc_assert(r.value.v[1].id == TERM, "values in order");
        if (r.value.v[0].id == 1000)
            vc_assert((M.items == 0) & (M.sink_made == 0), "an optional list is empty");
        else
        {
            vc_assert((M.sink_made == 1) & (M.sink_finished == 1), "one sink per list");
            vc_assert((r.value.v[0].id == 5000) & (r.value.v[0].pos == M.values) & (M.values == M.items), "every item is in the sink");
        }
    }
}
#define UR(name, S, B, Opt, L, rule) \
    VU(name) \
    { \
        RULES(ESC(rec_mon<S, B, Opt, L>)) \
        constexpr auto trm  = dsl::terminator(abs_branch<TERM, mon_t>{}); \
        constexpr auto triml = dsl::terminator(abs_branch<TERM, mon_t>{}).limit(dsl::lit_c<'!'>).limit(dsl::lit_c<';'>); \
        (void)trm, (void)triml; \
        rcontract<decltype(rule), mon_t>(); \
    }
#define ESC(...) __VA_ARGS__
UR(list, no_sep, true, false, NoLim, trm.list(item))
UR(list_rule, no_sep, false, false, NoLim, trm.list(ritem))
UR(list_lim, no_sep, true, false, LimX, triml.list(item))
UR(list_sep, sep_forbid, true, false, NoLim, trm.list(item, dsl::sep(sep)))
UR(list_sep_rule, sep_forbid, false, false, NoLim, trm.list(ritem, dsl::sep(sep)))
UR(list_tsep, sep_trailing, true, false, NoLim, trm.list(item, dsl::trailing_sep(sep)))
UR(list_sep_lim, sep_forbid, true, false, LimX, triml.list(item, dsl::sep(sep)))
UR(opt_list, no_sep, true, true, NoLim, trm.opt_list(item))
UR(opt_list_rule, no_sep, false, true, LimX, triml.opt_list(ritem))
UR(opt_list_sep, sep_forbid, true, true, NoLim, trm.opt_list(item, dsl::sep(sep)))
UR(opt_list_tsep, sep_trailing, true, true, LimX, triml.opt_list(item, dsl::trailing_sep(sep)))

// Property: error recovery, terminators and brackets, for arbitrary component rules (absrule.hpp).
#include "sem.hpp"

// --- semantics: recovery ----------------------------------------------------------------------------------
// discards input from o.pos to the first position where Stop holds
template <typename Stop>
inline u64 s_find(u64 from, u64 n)
{
    A_touch = SemIn.data;
    return vc_first(Stop::name, SemIn.data, 1, from, n, &Stop::at);
}
inline bool is_at(u64 q, char c) { return (q < SemIn.n) & (u8(SemIn.at(q)) == u8(c)); }
inline bool is_ab(u64 q) { return is_at(q, 'a') & (q + 1 < SemIn.n) & is_at(q + 1, 'b'); }
// (the code unit FF is how the UTF-8 encoding represents the end of the input)
inline bool is_end(u64 q) { return (q >= SemIn.n) | is_at(q, char(0xFF)); }
// limits
struct NoLim
{
    static bool at(u64) { return false; }
};
struct LimX
{
    static bool at(u64 q) { return is_at(q, '!'); }
};
struct LimAB
{
    static bool at(u64 q) { return is_ab(q) | is_at(q, ';'); }
};
inline void s_skip(out& o, u64 e, bool found)
{
    ++o.rec_start;
    ++o.etok;
    o.etok_begin = o.pos;
    o.etok_end   = e;
    if (found)
        ++o.rec_finish;
    else
    {
        ++o.rec_cancel;
        o.ok = false;
    }
    o.pos = e;
}
// recover(A) with a limit: the first position where the condition of A or the limit holds
template <typename A, typename Lim>
struct Recover
{
    static constexpr const char* name = "R";
    static bool cond_at(u64 q)
    {
        out o = {};
        o.ok  = true;
        o.pos = q;
        return A::cond(o);
    }
    static bool at(u64 q) { return cond_at(q) | Lim::at(q) | is_end(q); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        u64 e = s_find<Recover>(o.pos, o.whole);
        s_skip(o, e, cond_at(e));
        if (o.ok)
            A::run(o);
    }
};
// find(tokens): the same, but they are not consumed
template <typename Needle, typename Lim>
struct Find
{
    static constexpr const char* name = "F";
    static bool at(u64 q) { return Needle::at(q) | Lim::at(q) | is_end(q); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        u64 e = s_find<Find>(o.pos, o.whole);
        s_skip(o, e, (e < o.whole) & Needle::at(e));
    }
};
// any other recovery rule
template <typename A>
struct RecRule
{
    static void run(out& o)
    {
        ++o.rec_start;
        A::run(o);
        if (o.ok)
            ++o.rec_finish;
        else
            ++o.rec_cancel;
    }
};
struct Noop
{
    static void run(out&) {}
};
// try_(A, Rec): if A fails, its values are dropped, and parsing continues with Rec where A failed
template <typename A, typename Rec = RecRule<Noop>>
struct Try
{
    static bool cond(const out& o) { return A::cond(o); }
    static void run(out& o)
    {
        if (!o.ok)
            return;
        avals keep = o.vals;
        A::run(o);
        if (o.ok)
            return;
        o.vals = keep;
        o.ok   = true;
        Rec::run(o);
    }
};
// terminator T: A T, recovering with recover(T) if A fails
template <typename A, typename T, typename Lim = NoLim>
struct TermTry
{
    static void run(out& o)
    {
        if (!o.ok)
            return;
        avals keep = o.vals;
        A::run(o);
        if (o.ok)
            return T::run(o);
        o.vals = keep;
        o.ok   = true;
        Recover<T, Lim>::run(o);
    }
};
template <typename A, typename T, typename Lim = NoLim>
struct TermOpt
{
    static void run(out& o)
    {
        if (!o.ok)
            return;
        if (T::cond(o))
        {
            s_val(o, {1000, 0});
            return T::run(o);
        }
        TermTry<A, T, Lim>::run(o);
    }
};

// --- units --------------------------------------------------------------------------------------------------
U(try, r1 + dsl::try_(r2) + r3, Seq<R<1>, Try<R<2>>, R<3>>)
U(try_seq, r1 + dsl::try_(r2 + r3) + r4, Seq<R<1>, Try<Seq<R<2>, R<3>>>, R<4>>)
U(try_br, r1 + dsl::opt(dsl::try_(b1 >> r2)) + r3, Seq<R<1>, Opt<Try<Br<B1, R<2>>>>, R<3>>)
U(try_br_rule, r1 + dsl::try_(b1 >> r2) + r3, Seq<R<1>, Try<Br<B1, R<2>>>, R<3>>)
U(try_rec, r1 + dsl::try_(r2, r3) + r4, Seq<R<1>, Try<R<2>, RecRule<R<3>>>, R<4>>)
U(try_rec_br, dsl::opt(dsl::try_(b1 >> r2, r3)) + r4, Seq<Opt<Try<Br<B1, R<2>>, RecRule<R<3>>>>, R<4>>)
U(try_nested, dsl::try_(r1 + dsl::try_(r2, r3) + r4) + r5, Seq<Try<Seq<R<1>, Try<R<2>, RecRule<R<3>>>, R<4>>>, R<5>>)
U(try_alt, dsl::try_(b1 | b2 >> r2) + r3, Seq<Try<Alt<B1, Br<B2, R<2>>>>, R<3>>)
U(try_tok, dsl::try_(t1) + r3, Seq<Try<T1>, R<3>>)
struct p4
{
    static constexpr auto rule  = r1 + dsl::try_(r2) + r3;
    static constexpr auto value = acollect{};
};
U(try_prd, dsl::try_(dsl::p<p4>) + r4, Seq<Try<Prod<Seq<R<1>, Try<R<2>>, R<3>>>>, R<4>>)

struct NX
{
    static bool at(u64 q) { return is_at(q, 'x'); }
};
struct NXAB
{
    static bool at(u64 q) { return is_at(q, 'x') | is_ab(q); }
};
constexpr auto lx  = dsl::lit_c<'x'>;
constexpr auto lb  = dsl::lit_c<'!'>;
constexpr auto ls  = dsl::lit_c<';'>;
constexpr auto lab = LEXY_LIT("ab");
// (the parts around the recovery are tokens and dsl::position here: the general case is above)
constexpr auto at = dsl::position;
U(find, dsl::try_(t1, dsl::find(lx)) + at, Seq<Try<T1, Find<NX, NoLim>>, Pos>)
U(find_rule, r1 + dsl::try_(r2, dsl::find(lx)) + at, Seq<R<1>, Try<R<2>, Find<NX, NoLim>>, Pos>)
U(find_lim, dsl::try_(t1, dsl::find(lx).limit(lb)) + at, Seq<Try<T1, Find<NX, LimX>>, Pos>)
U(find_lim2, dsl::try_(t1, dsl::find(lx).limit(lab).limit(ls)) + at, Seq<Try<T1, Find<NX, LimAB>>, Pos>)
U(find_two, dsl::try_(t1, dsl::find(lx, lab).limit(lb)) + at, Seq<Try<T1, Find<NXAB, LimX>>, Pos>)
U(rec, dsl::try_(r2, dsl::recover(b1)) + at, Seq<Try<R<2>, Recover<B1, NoLim>>, Pos>)
U(rec_lim, dsl::try_(t1, dsl::recover(b1).limit(lb)) + at, Seq<Try<T1, Recover<B1, LimX>>, Pos>)
U(rec_two, dsl::try_(t1, dsl::recover(b1, b2).limit(lb)) + at, Seq<Try<T1, Recover<Alt<B1, B2>, LimX>>, Pos>)
U(rec_br, dsl::try_(t1, dsl::recover(t2 >> r3, t3).limit(lab, ls)) + at, Seq<Try<T1, Recover<Alt<Br<T2, R<3>>, T3>, LimAB>>, Pos>)
U(rec_tok, dsl::try_(t3, dsl::recover(t1, t2)) + at, Seq<Try<T3, Recover<Alt<T1, T2>, NoLim>>, Pos>)

constexpr auto trm  = dsl::terminator(b1);
constexpr auto trml = dsl::terminator(t2).limit(lb);
constexpr auto trm2 = dsl::terminator(t2 >> t3).limit(lab).limit(ls);
using TR2           = Br<T2, T3>;
U(term, trm(r2) + r3, Seq<R<2>, B1, R<3>>)
U(term_br, dsl::opt(trm(b2 >> r2)) + r3, Seq<Opt<Br<B2, R<2>, B1>>, R<3>>)
U(term_try, trm.try_(r2) + at, Seq<TermTry<R<2>, B1>, Pos>)
U(term_try_lim, trml.try_(t1) + at, Seq<TermTry<T1, T2, LimX>, Pos>)
U(term_try2, trm2.try_(t1 + r2) + at, Seq<TermTry<Seq<T1, R<2>>, TR2, LimAB>, Pos>)
U(term_opt, trm.opt(t1) + at, Seq<TermOpt<T1, B1>, Pos>)
U(term_opt_lim, trm2.opt(t1) + at, Seq<TermOpt<T1, TR2, LimAB>, Pos>)
constexpr auto brk  = dsl::brackets(b2, b1);
constexpr auto brkt = dsl::brackets(t1, t2);
constexpr auto brkl = dsl::brackets(t1, t2).limit(lb);
U(brackets, r1 + brk(r2) + r3, Seq<R<1>, Br<B2, R<2>, B1>, R<3>>)
U(brackets_br, dsl::opt(brk(b3 >> r2)) + r3, Seq<Opt<Br<B2, B3, R<2>, B1>>, R<3>>)
U(brackets_try, dsl::opt(brkt.try_(r2)) + at, Seq<Opt<Br<T1, TermTry<R<2>, T2>>>, Pos>)
U(brackets_try_lim, dsl::opt(brkl.try_(t3)) + at, Seq<Opt<Br<T1, TermTry<T3, T2, LimX>>>, Pos>)
U(brackets_opt, dsl::opt(brkt.opt(r2)) + at, Seq<Opt<Br<T1, TermOpt<R<2>, T2>>>, Pos>)
U(brackets_opt_lim, dsl::opt(brkl.opt(t3)) + at, Seq<Opt<Br<T1, TermOpt<T3, T2, LimX>>>, Pos>)

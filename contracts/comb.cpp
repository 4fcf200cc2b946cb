// Property: sequences, branches, choices, options and the other non-repeating combinators, for arbitrary
// component rules (absrule.hpp), compared with their denotational semantics (sem.hpp).
#include "sem.hpp"

U(seq2, r1 + r2, Seq<R<1>, R<2>>)
U(seq3, r1 + r2 + r3, Seq<R<1>, R<2>, R<3>>)
U(seq4, r1 + (r2 + r3) + r4, Seq<R<1>, R<2>, R<3>, R<4>>)
U(seq5, (r1 + r2) + (r3 + (r4 + r5)), Seq<R<1>, R<2>, R<3>, R<4>, R<5>>)
U(seq6, r1 + r2 + r3 + r4 + r5 + r6, Seq<R<1>, R<2>, R<3>, R<4>, R<5>, R<6>>)
U(seq7, r1 + r2 + r3 + r4 + r5 + r6 + r7, Seq<R<1>, R<2>, R<3>, R<4>, R<5>, R<6>, R<7>>)
U(seq9, r1 + r2 + r3 + r4 + r5 + r6 + r7 + r8 + r9, Seq<R<1>, R<2>, R<3>, R<4>, R<5>, R<6>, R<7>, R<8>, R<9>>)
U(seq_tok, t1 + r1 + t2, Seq<T1, R<1>, T2>)

U(br_seq, (b1 >> r1) + r2, Seq<B1, R<1>, R<2>>)
U(seq_br, r1 + (b1 >> r2), Seq<R<1>, B1, R<2>>)
U(br_br, (b1 >> r1) + (b2 >> r2), Seq<B1, R<1>, B2, R<2>>)
U(opt_br_nest, dsl::opt((b1 >> r1) >> r2), Opt<Br<B1, R<1>, R<2>>>)
U(opt_br_nest2, dsl::opt(b1 >> (b2 >> r2)), Opt<Br<B1, B2, R<2>>>)
U(opt_br_nest3, dsl::opt((b1 >> r1) >> (b2 >> r2)), Opt<Br<B1, R<1>, B2, R<2>>>)
U(opt_br_plus, dsl::opt((b1 >> r1) + r2 + r3), Opt<Br<B1, R<1>, R<2>, R<3>>>)
U(opt_br_plus2, dsl::opt((b1 >> r1) + (r2 + r3)), Opt<Br<B1, R<1>, R<2>, R<3>>>)
U(opt_br_seq, dsl::opt((b1 >> r1) >> (r2 + r3)), Opt<Br<B1, R<1>, R<2>, R<3>>>)

U(alt2, b1 | b2, Alt<B1, B2>)
U(alt3, (b1 >> r1) | b2 | (b3 >> r3 + r4), Alt<Br<B1, R<1>>, B2, Br<B3, R<3>, R<4>>>)
U(alt4, (b1 | b2) | (b3 | b4), Alt<B1, B2, B3, B4>)
U(alt_nest, b1 | (b2 | b3) | b4, Alt<B1, B2, B3, B4>)
U(alt_else, (b1 >> r1) | b2 | dsl::else_ >> r3, Alt<Br<B1, R<1>>, B2, Br<Else, R<3>>>)
U(alt_else_mid, b1 | dsl::else_ >> r2 | b3, Alt<B1, Br<Else, R<2>>, B3>)
U(alt_tok, (t1 >> r1) | (t2 >> r2) | t3, Alt<Br<T1, R<1>>, Br<T2, R<2>>, T3>)
U(alt_seq, (b1 | b2) + r3, Seq<Alt<B1, B2>, R<3>>)
U(seq_alt_seq, r1 + (b1 | b2) + r3, Seq<R<1>, Alt<B1, B2>, R<3>>)
U(alt_cond, dsl::opt((b1 | b2 | b3) >> r1), Opt<Br<Alt<B1, B2, B3>, R<1>>>)
U(alt_cond_else, dsl::opt((b1 | b2 | b3) >> r1) + r2, Seq<Opt<Br<Alt<B1, B2, B3>, R<1>>>, R<2>>)
U(alt_in_alt, ((b1 | b2) >> r1) | b3, Alt<Br<Alt<B1, B2>, R<1>>, B3>)
U(alt_br_alt, (b1 >> (b2 | b3)) | b4, Alt<Br<B1, Alt<B2, B3>>, B4>)

U(opt1, r1 + dsl::opt(b1) + r2, Seq<R<1>, Opt<B1>, R<2>>)
U(opt_alt, dsl::opt(b1 | b2), Opt<Alt<B1, B2>>)
U(opt_opt, dsl::opt(b1 >> dsl::opt(b2 >> r2)) + r3, Seq<Opt<Br<B1, Opt<Br<B2, R<2>>>>>, R<3>>)
U(opt_else, dsl::opt(dsl::else_ >> r1), Opt<Br<Else, R<1>>>)
U(if1, r1 + dsl::if_(b1 >> r2) + r3, Seq<R<1>, If<Br<B1, R<2>>>, R<3>>)
U(if_alt, dsl::if_(b1 | b2 >> r2), If<Alt<B1, Br<B2, R<2>>>>)
U(if_else, dsl::if_(dsl::else_ >> r1), If<Br<Else, R<1>>>)
U(null, r1 + dsl::nullopt + r2, Seq<R<1>, Null, R<2>>)

U(must, r1 + dsl::must(b1 >> r2).error<my_error> + r3, Seq<R<1>, Must<Br<B1, R<2>>>, R<3>>)
U(must_br, dsl::opt(dsl::must(b1 >> r2).error<my_error>), Opt<Br<B1, R<2>>>)
U(must_alt, dsl::must(b1 | b2).error<my_error>, Must<Alt<B1, B2>>)
U(err_else, b1 | dsl::error<my_error>, Alt<B1, Err<>>)
U(err_tok, r1 + (b1 | dsl::error<my_error>(t1)), Seq<R<1>, Alt<B1, Err<21>>>)
U(cap, r1 + dsl::capture(t1) + r2, Seq<R<1>, Cap<21>, R<2>>)
U(cap_br, r1 + dsl::opt(dsl::capture(t1)) + r2, Seq<R<1>, Opt<Cap<21>>, R<2>>)
U(cap_alt, (dsl::capture(t1) >> r1) | dsl::capture(t2), Alt<Br<Cap<21>, R<1>>, Cap<22>>)
U(pos, r1 + dsl::position + r2, Seq<R<1>, Pos, R<2>>)
U(pos_r, r1 + dsl::position(b1) + r2, Seq<R<1>, PosR<B1>, R<2>>)
U(pos_br, r1 + dsl::opt(dsl::position(b1) >> r2), Seq<R<1>, Opt<Br<PosR<B1>, R<2>>>>)
U(peek_r, r1 + dsl::peek(t1) + r2, Seq<R<1>, Peek<21>, R<2>>)
U(peek_br, r1 + ((dsl::peek(t1) >> r2) | (dsl::peek(t2) >> r3)), Seq<R<1>, Alt<Br<Peek<21>, R<2>>, Br<Peek<22>, R<3>>>>)
U(peekn_r, r1 + dsl::peek_not(t1) + r2, Seq<R<1>, PeekNot<21>, R<2>>)
U(peekn_br, r1 + dsl::opt(dsl::peek_not(t1) >> r2), Seq<R<1>, Opt<Br<PeekNot<21>, R<2>>>>)

struct p1
{
    static constexpr auto rule  = b1 >> r1;
    static constexpr auto value = acollect{};
};
struct p2
{
    static constexpr auto rule  = r1 + r2;
    static constexpr auto value = acollect{};
};
struct p3
{
    static constexpr auto rule  = b2 | b3 >> r3;
    static constexpr auto value = acollect{};
};
U(prd, r3 + dsl::p<p2> + r4, Seq<R<3>, Prod<Seq<R<1>, R<2>>>, R<4>>)
U(prd_br, r3 + dsl::p<p1> + r4, Seq<R<3>, Prod<Br<B1, R<1>>>, R<4>>)
U(prd_opt, r3 + dsl::opt(dsl::p<p1>) + r4, Seq<R<3>, Opt<Prod<Br<B1, R<1>>>>, R<4>>)
U(prd_alt, dsl::p<p1> | dsl::p<p3> >> r4, Alt<Prod<Br<B1, R<1>>>, Br<Prod<Alt<B2, Br<B3, R<3>>>>, R<4>>>)
U(prd_inline, r3 + dsl::inline_<p2> + r4, Seq<R<3>, R<1>, R<2>, R<4>>)
U(prd_inline_br, r3 + dsl::opt(dsl::inline_<p1>) + r4, Seq<R<3>, Opt<Br<B1, R<1>>>, R<4>>)

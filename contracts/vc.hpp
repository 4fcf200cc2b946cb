// Contract language used by the files in this directory.
//
// The same text has two interpretations:
//  * symbolic (default): clang turns it, together with the lexy headers of /repo, into LLVM IR which
//    engine/vcg.py verifies deductively.  vc_nd* are universally quantified, vc_uf* are uninterpreted
//    (universally quantified) functions, vc_assume is `requires`, vc_assert is `ensures`.
//  * native (-DVC_NATIVE): the same contract is executed against the same lexy code compiled normally;
//    used only to replay / search concrete counterexamples after a proof failed.
#ifndef VC_HPP
#define VC_HPP
#include <cstddef>
#include <cstdint>
typedef std::uint64_t u64;
typedef std::uint32_t u32;
typedef std::uint16_t u16;
typedef std::uint8_t  u8;
typedef std::int64_t  i64;
extern "C"
{
void vc_assume(bool c);
void vc_assert(bool c, const char* label);
void vc_cover(bool c, const char* label);
bool vc_ndb(const char* name);
u8   vc_nd8(const char* name);
u16  vc_nd16(const char* name);
u32  vc_nd32(const char* name);
u64  vc_nd64(const char* name);
bool vc_uf1_1(const char* name, u64 a);
u8   vc_uf1_8(const char* name, u64 a);
u16  vc_uf1_16(const char* name, u64 a);
u32  vc_uf1_32(const char* name, u64 a);
u64  vc_uf1_64(const char* name, u64 a);
bool vc_uf2_1(const char* name, u64 a, u64 b);
u8   vc_uf2_8(const char* name, u64 a, u64 b);
u64  vc_uf2_64(const char* name, u64 a, u64 b);
u64  vc_choose(const char* name, u64 n);
// fresh object of `bytes` bytes with arbitrary content
void* vc_array(const char* name, u64 bytes);
u64   vc_objsize(const void* p);
bool  vc_alive(const void* p);
u64   vc_live_heap();
bool  vc_same_object(const void* a, const void* b);
u64   vc_offset(const void* p);
// loop invariant support: interesting terms / predicates over loop-modified variables
void vc_track(u64 v);
void vc_track32(u32 v);
// the object is ghost state: loop invariants mention it only through vc_use_inv*
void vc_ghost(const void* p);
void vc_use_inv0(bool (*p)());
// candidates: some small loop variable == v implies p(), for v in 0..5
void vc_use_case0(bool (*p)());
void vc_use_inv1(bool (*p)(u64));
// f(x) keeps its value in the loop, for loop-modified x
void vc_use_const1(u64 (*f)(u64));
void vc_use_inv2(bool (*p)(u64, u64));
void vc_use_inv32(bool (*p)(u64, u32));
// prophecy: the least E in [start, n] with E == n or pred(E); pred may read array element E only
u64  vc_first(const char* name, const void* array, u64 elem, u64 start, u64 n, bool (*pred)(u64));
// requires: forall i. pred(i)   (instantiated at every element of array that is read)
void vc_axiom(const void* array, u64 elem, u64 n, bool (*pred)(u64));
// recursively defined spec function V: V(start) = init, V(i+1) = step(V(i), i) for start <= i < end
void vc_fold(const char* name, const void* array, u64 elem, u64 init, u64 start, u64 end, u64 (*step)(u64, u64));
u64  vc_fold_at(const char* name, u64 i);
// native interpretation only: bias of the random search
void vc_alphabet(const char* name, const char* chars, u64 n);
void vc_range(const char* name, u64 lo, u64 hi);
}
#define ENSURES(c) vc_assert((c), #c)
#define ENSURES_L(c, l) vc_assert((c), l)
#define REQUIRES(c) vc_assume(c)
#define IMPLIES(a, b) (!(a) | (b))
#define VU(name) extern "C" __attribute__((noinline, used)) void vu_##name()
#endif

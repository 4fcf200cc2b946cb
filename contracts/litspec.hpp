// Specification of literals: longest common prefix of the input and a spelling.
#ifndef VC_LITSPEC_HPP
#define VC_LITSPEC_HPP
#include "unispec.hpp"
template <typename CharT>
static constexpr u64 len_of(const CharT* s)
{
    u64 n = 0;
    while (s[n])
        ++n;
    return n;
}
// length of the longest common prefix of the input at p and s (at most m)
template <u64 I, u64 M, typename In, typename CharT>
static u64 common(const In& in, u64 p, const CharT* s)
{
    if constexpr (I == M)
        return M;
    else
    {
        u64 rest = common<I + 1, M>(in, p, s);
        return ((p + I < in.n) & (in.at(p + I) == u32(std::make_unsigned_t<CharT>(s[I])))) ? rest : I;
    }
}
// case insensitive in ASCII
static u32 lower(u32 c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
template <u64 I, u64 M, typename In, typename CharT>
static u64 common_ci(const In& in, u64 p, const CharT* s)
{
    if constexpr (I == M)
        return M;
    else
    {
        u64 rest = common_ci<I + 1, M>(in, p, s);
        return ((p + I < in.n) & (lower(in.at(p + I)) == u32(std::make_unsigned_t<CharT>(s[I])))) ? rest : I;
    }
}

template <u64 M, typename In, typename CharT>
static bool lit_at(const In& in, u64 p, const CharT* s)
{
    return common<0, M>(in, p, s) == M;
}
template <u64 M, typename In, typename CharT>
static bool lit_at_ci(const In& in, u64 p, const CharT* s)
{
    return common_ci<0, M>(in, p, s) == M;
}
#endif

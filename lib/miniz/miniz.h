// Stand-in for miniz, which is not available offline: the few functions the library uses, provided by zlib, whose
// functions and stream format miniz reproduces.
#pragma once
#include <zlib.h>
using mz_ulong = unsigned long;
enum { MZ_OK = Z_OK };
inline mz_ulong mz_compressBound(mz_ulong n) { return compressBound(n); }
inline int mz_compress(unsigned char* d, mz_ulong* dn, unsigned char const* s, mz_ulong sn) { return compress(d, dn, s, sn); }
inline int mz_uncompress(unsigned char* d, mz_ulong* dn, unsigned char const* s, mz_ulong sn) { return uncompress(d, dn, s, sn); }

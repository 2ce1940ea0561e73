// MemoryStream witnesses: a stream over n given bytes, cut down to k bytes (so the cursor may lie past the end), one operation, then the state is dumped
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include "common.h"
#include <cstring>
typedef uint64_t u64;
static inline void dump(MemoryStream &s, uint8_t *o, u64 *r) { r[0] = s.buffer().size(); r[1] = s.ftell(); if (s.buffer().size()) memcpy(o, s.buffer().data(), s.buffer().size()); }
#define S MemoryStream s(d, n); s.fseek((int)c, MemoryStream::TOP); s.buffer().resize(k); s.setReadEndian(re ? MemoryStream::BIG : MemoryStream::LITTLE); s.setWriteEndian(we ? MemoryStream::BIG : MemoryStream::LITTLE)
#define A const uint8_t *d, u64 n, u64 k, u64 c, int re, int we
#define Z uint8_t *o, u64 *r
// plain access
W c_open(A, Z) { S; dump(s, o, r); r[2] = s.feof(); r[3] = s.mark(); }
W c_open2(const uint8_t *d, u64 n, Z) { MemoryStream s(d, n); dump(s, o, r); }
W c_open0(Z) { MemoryStream s; dump(s, o, r); }
W c_openz(u64 n, Z) { MemoryStream s(NULL, n); dump(s, o, r); }
W c_seek(A, Z, int off, int w) { S; r[2] = (u64)(int64_t)s.fseek(off, w == 0 ? MemoryStream::TOP : w == 1 ? MemoryStream::CURRENT : MemoryStream::END); dump(s, o, r); }
W c_seekTo(A, Z, u64 p) { S; s.seekTo(p); dump(s, o, r); }
W c_align(A, Z, int a) { S; s.align(a); dump(s, o, r); }
W c_get_at(A, Z, u64 p) { S; r[2] = s.get_at(p); dump(s, o, r); }
W c_put_at(A, Z, u64 p, uint8_t v) { S; s.put_at(p, v); dump(s, o, r); }
W c_read_at(A, Z, uint8_t *t, u64 l, u64 p) { S; r[2] = s.read_at(t, l, p); dump(s, o, r); }
W c_write_at(A, Z, const uint8_t *t, u64 l, u64 p) { S; r[2] = s.write_at(t, l, p); dump(s, o, r); }
W c_read(A, Z, uint8_t *t, u64 l) { S; r[2] = s.read(t, l); dump(s, o, r); }
W c_write(A, Z, const uint8_t *t, u64 l) { S; r[2] = s.write(t, l); dump(s, o, r); }
W c_ptr(A, Z, u64 p) { S; r[2] = *(const uint8_t *)s.ptr(); r[3] = *(const uint8_t *)s.ptr(p); dump(s, o, r); }
W c_ptrw(A, Z, u64 p, uint8_t v) { S; *(uint8_t *)s.ptr(p) = v; r[2] = s.get_at(p); dump(s, o, r); }
W c_copy(A, Z, uint8_t v) { S; MemoryStream t = s; t.put_at(0, v); t.put_at(k, v); r[2] = t.buffer().size(); r[3] = t.ftell(); dump(s, o, r); }
// numbers
#define PUT(N, T) W c_put##N(A, Z, u64 v) { S; s.put##N((T)v); dump(s, o, r); }
#define GET(N, T, U) W c_get##N(A, Z) { S; r[2] = (u64)(U)(T)s.get##N(); dump(s, o, r); }
PUT(Uint8, uint8_t) PUT(Int8, int8_t) PUT(Uint16, uint16_t) PUT(Int16, int16_t) PUT(Uint32, uint32_t) PUT(Int32, int32_t) PUT(Uint64, uint64_t) PUT(Int64, int64_t)
GET(Uint8, uint8_t, uint8_t) GET(Int8, int8_t, uint8_t) GET(Uint16, uint16_t, uint16_t) GET(Int16, int16_t, uint16_t)
GET(Uint32, uint32_t, uint32_t) GET(Int32, int32_t, uint32_t) GET(Uint64, uint64_t, uint64_t) GET(Int64, int64_t, uint64_t)
W c_putFloat(A, Z, u64 v) { S; uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); s.putFloat(f); dump(s, o, r); }
W c_putDouble(A, Z, u64 v) { S; double f; memcpy(&f, &v, 8); s.putDouble(f); dump(s, o, r); }
W c_getFloat(A, Z) { S; float f = s.getFloat(); uint32_t u; memcpy(&u, &f, 4); r[2] = u; dump(s, o, r); }
W c_getDouble(A, Z) { S; double f = s.getDouble(); u64 u; memcpy(&u, &f, 8); r[2] = u; dump(s, o, r); }
#define NEW(N, T) W c_new##N(Z, u64 v) { MemoryStream s; s.put##N((T)v); dump(s, o, r); s.fseek(0, MemoryStream::TOP); r[2] = s.get##N(); }
NEW(Uint16, uint16_t) NEW(Uint32, uint32_t) NEW(Uint64, uint64_t)
#define DAT(N, T) W c_dat##N(const uint8_t *d, u64 n, Z, u64 v) { MemoryStream s(d, n); r[2] = s.get##N(); s.fseek(0, MemoryStream::TOP); s.put##N((T)v); dump(s, o, r); }
DAT(Uint16, uint16_t) DAT(Uint32, uint32_t) DAT(Uint64, uint64_t)
// strings
static inline void str(const std::string &t, uint8_t *q, u64 *r) { r[2] = t.size(); for (size_t i = 0; i < t.size(); i++) q[i] = (uint8_t)t[i]; }
W c_putString(A, Z, const uint8_t *t, u64 l) { S; s.putString(std::string((const char *)t, l)); dump(s, o, r); }
W c_putSubstr(A, Z, const uint8_t *t, u64 l, u64 f) { S; s.putSubstr(std::string((const char *)t, l), f); dump(s, o, r); }
W c_getSubstr(A, Z, uint8_t *q, int f) { S; str(s.getSubstr(f), q, r); dump(s, o, r); }
W c_get_string(A, Z, uint8_t *q) { S; str(s.get_string(), q, r); dump(s, o, r); }
W c_string2(A, Z, uint8_t *q, const uint8_t *t, u64 l) { S; s.putString(std::string((const char *)t, l)); dump(s, o, r); s.fseek((int)c, MemoryStream::TOP); str(s.get_string(), q, r); r[3] = s.ftell(); }
// back-patched pointers
W c_slot32(A, Z) { S; r[2] = s.putPointer32(); dump(s, o, r); }
W c_slot64(A, Z) { S; r[2] = s.putPointer64(); dump(s, o, r); }
W c_adjust32(A, Z, u64 p) { S; s.adjustPointer32(p); dump(s, o, r); }
W c_adjust64(A, Z, u64 p) { S; s.adjustPointer64(p); dump(s, o, r); }
W c_getp32(A, Z) { S; r[2] = s.getPointer32(); dump(s, o, r); }
W c_getp64(A, Z) { S; r[2] = s.getPointer64(); dump(s, o, r); }
extern "C" void marker_begin(void); extern "C" void marker_end(void);
W c_adj32(A, Z, u64 p) { S; marker_begin(); s.adjustPointer32(p); marker_end(); dump(s, o, r); }
W c_adj64(A, Z, u64 p) { S; marker_begin(); s.adjustPointer64(p); marker_end(); dump(s, o, r); }
W c_seq32(A, Z, const uint8_t *t, u64 l) { S; u64 p = s.putPointer32(); s.write(t, l); s.adjustPointer32(p); dump(s, o, r); s.fseek((int)p, MemoryStream::TOP); r[2] = s.getPointer32(); r[3] = p; }
W c_seq64(A, Z, const uint8_t *t, u64 l) { S; u64 p = s.putPointer64(); s.write(t, l); s.adjustPointer64(p); dump(s, o, r); s.fseek((int)p, MemoryStream::TOP); r[2] = s.getPointer64(); r[3] = p; }
W c_icc(A, Z) { S; Gamut g = loadGamutFromICCProfileMemory(d, n); dump(s, o, r); (void)g; }

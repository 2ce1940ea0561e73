// MemoryStream histories: a stream over n given bytes, then a sequence of operations given by op codes and one-byte arguments
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include "common.h"
#include <cstring>
typedef uint64_t u64;
static __attribute__((noinline)) void step(MemoryStream &s, const uint8_t *d, u64 n, int op, int a, int b, const uint8_t *t, u64 *q, uint8_t *z, u64 *slot)
{
    u64 x; memcpy(&x, t, 8);
    switch (op) {
    case 0: s.putUint8(t[0]); break;
    case 1: q[0] = s.getUint8(); break;
    case 2: q[0] = s.write(t, a); break;
    case 3: q[0] = s.read(z, a); break;
    case 4: q[0] = s.fseek(a, MemoryStream::TOP); break;
    case 5: q[0] = s.fseek(a, MemoryStream::CURRENT); break;
    case 6: q[0] = s.fseek(a, MemoryStream::END); break;
    case 7: s.align(a); break;
    case 8: s.put_at(a, t[0]); break;
    case 9: q[0] = s.get_at(a); break;
    case 10: q[0] = s.write_at(t, b, a); break;
    case 11: q[0] = s.read_at(z, b, a); break;
    case 12: s.setReadEndian(a ? MemoryStream::BIG : MemoryStream::LITTLE); break;
    case 13: s.setWriteEndian(a ? MemoryStream::BIG : MemoryStream::LITTLE); break;
    case 14: s.putUint16((uint16_t)x); break;
    case 15: q[0] = s.getUint16(); break;
    case 16: s.putUint32((uint32_t)x); break;
    case 17: q[0] = s.getUint32(); break;
    case 18: s.putUint64(x); break;
    case 19: q[0] = s.getUint64(); break;
    case 20: s.putInt16((int16_t)x); break;
    case 21: q[0] = (uint16_t)s.getInt16(); break;
    case 22: s.putInt32((int32_t)x); break;
    case 23: q[0] = (uint32_t)s.getInt32(); break;
    case 24: { std::string c((const char *)t, a); s.putString(c); } break;
    case 25: { std::string c = s.get_string(); q[0] = c.size(); for (size_t i = 0; i < c.size(); i++) z[i] = (uint8_t)c[i]; } break;
    case 26: { std::string c((const char *)t, b); s.putSubstr(c, a); } break;
    case 27: { std::string c = s.getSubstr(a); q[0] = c.size(); for (size_t i = 0; i < c.size(); i++) z[i] = (uint8_t)c[i]; } break;
    case 28: q[0] = *slot = s.putPointer32(); break;
    case 29: s.adjustPointer32(*slot); break;
    case 30: q[0] = *slot = s.putPointer64(); break;
    case 31: s.adjustPointer64(*slot); break;
    case 32: q[0] = s.getPointer32(); break;
    case 33: q[0] = s.getPointer64(); break;
    case 34: q[0] = s.feof(); break;
    case 35: s.buffer().resize(a); break;
    case 36: s.init(d, n); break;
    case 37: q[0] = s.mark(); break;
    case 38: s.seekTo(a); break;
    case 39: { MemoryStream c(s); s = c; } break;
    }
}
W c_seq(const uint8_t *d, u64 n, u64 ops, u64 as, u64 bs, int k, const uint8_t *t, u64 *q, uint8_t *z, uint8_t *o, u64 *r)
{
    MemoryStream s(d, n);
    u64 slot = 0;
    for (int i = 0; i < k; i++) { step(s, d, n, (int)(ops >> (8 * i)) & 255, (int)(int8_t)(as >> (8 * i)), (int)(bs >> (8 * i)) & 255, t + 8 * i, q + i, z + 16 * i, &slot); r[2 + i] = s.ftell(); }
    r[0] = s.buffer().size(); r[1] = s.ftell();
    if (s.buffer().size()) memcpy(o, s.buffer().data(), s.buffer().size());
}

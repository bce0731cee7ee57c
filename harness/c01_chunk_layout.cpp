//@prop: C01
//@tus: %base %mepoo
//@bound: chunk-settings acceptance and size arithmetic: all 64-bit payload sizes, all 32-bit alignments and header sizes
//@bound: placed chunk: payload alignment 2^0..2^MAXA, user header size 0..MAXH in all legal combinations, payload size any up to the chunk size, chunk base at every 8-byte residue modulo 2^MAXA
//@job: name=settings defs="-DSETTINGS" reach=ok,notpow2,uhalign,uhsize,toolarge,zeroalign
//@job: name=place defs="-DMAXA=6 -DMAXH=24" reach=plain,aligned,withheader
//@job: name=place_big defs="-DMAXA=9 -DMAXH=64" reach=plain,aligned,withheader tier=thorough
#include "symx.h"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include <new>
using namespace iox; using namespace iox::mepoo;
static bool pow2(uint64_t x) { return x && !(x & (x - 1)); }
#ifdef SETTINGS
void symx_main() {
    uint64_t ps = symx_u64("payloadSize"); uint32_t pa = symx_u32("payloadAlign"), hs = symx_u32("headerSize"), ha = symx_u32("headerAlign");
    auto r = ChunkSettings::create(ps, pa, hs, ha);
    uint32_t epa = pa ? pa : 1, eha = ha ? ha : 1;
    if (!r.has_error()) {
        symx_reach("ok"); if (pa == 0) symx_reach("zeroalign");
        auto& s = r.value(); uint64_t rq = s.requiredChunkSize();
        CHECK(pow2(epa) && pow2(eha), "accepted alignments are powers of two");
        CHECK(eha <= alignof(ChunkHeader), "accepted user-header alignment does not exceed the chunk header's");
        CHECK((hs & (eha - 1)) == 0, "accepted user-header size is a multiple of its alignment");
        CHECK(s.userPayloadSize() == ps && s.userPayloadAlignment() == epa && s.userHeaderSize() == hs && s.userHeaderAlignment() == eha, "settings report the request");
        // the chunk must have room for header, user header, back offset, worst case padding and payload; no wrap around
        __uint128_t hdr = (__uint128_t)sizeof(ChunkHeader) + hs; __uint128_t pay;
        if (hs == 0 && epa <= alignof(ChunkHeader)) pay = hdr;
        else { // worst-case base address: 8-aligned only
            __uint128_t start = hs ? ((hdr + 3) / 4 * 4 + 4) : hdr; pay = epa <= 8 ? (start + epa - 1) / epa * epa : (start + 7) / 8 * 8 + (epa - 8); }
        CHECK((__uint128_t)rq >= pay + ps, "required chunk size covers payload end for every admissible chunk address");
    } else {
        auto e = r.error();
        if (e == ChunkSettings::Error::ALIGNMENT_NOT_POWER_OF_TWO) { symx_reach("notpow2"); CHECK(!pow2(epa) || !pow2(eha), "rejected alignment is no power of two"); }
        else if (e == ChunkSettings::Error::USER_HEADER_ALIGNMENT_EXCEEDS_CHUNK_HEADER_ALIGNMENT) { symx_reach("uhalign"); CHECK(eha > alignof(ChunkHeader), "user-header alignment too large"); }
        else if (e == ChunkSettings::Error::USER_HEADER_SIZE_NOT_MULTIPLE_OF_ITS_ALIGNMENT) { symx_reach("uhsize"); CHECK((hs & (eha - 1)) != 0, "header size no multiple"); }
        else { symx_reach("toolarge"); CHECK(ps > UINT64_MAX - ((uint64_t)sizeof(ChunkHeader) + hs + 8 + 2 * (uint64_t)epa + 64), "only overflowing sizes are refused"); }
    }
}
#else
alignas(1 << MAXA) static uint8_t arena[(1 << MAXA) * 3 + MAXH + 256];
void symx_main() {
    uint32_t pa = 1u << symx_concrete(symx_range("log2align", 0, MAXA));
    uint32_t ha = 1u << symx_concrete(symx_range("log2halign", 0, 3));
    uint32_t hs = (uint32_t)symx_concrete(symx_range("hsize", 0, MAXH));
    symx_assume(hs % ha == 0);
    uint64_t base = 8 * symx_concrete(symx_range("base", 0, (1 << MAXA) / 8 - 1 + ((1 << MAXA) < 8)));
    uint64_t ps = symx_u64("psize");
    auto r = ChunkSettings::create(ps, pa, hs, ha); symx_assume(!r.has_error());
    uint64_t cs = symx_u64("chunkSize"); symx_assume(cs >= r.value().requiredChunkSize());
    uint8_t* b = &arena[base];
    auto* h = new (b) ChunkHeader(cs, r.value());
    uint64_t p = (uint64_t)h->userPayload();
    CHECK(p % pa == 0, "payload aligned");
    CHECK(p >= (uint64_t)b + sizeof(ChunkHeader) + hs, "payload after headers");
    CHECK(p - (uint64_t)b + (__uint128_t)ps <= cs, "payload ends inside the chunk");
    CHECK(ChunkHeader::fromUserPayload(h->userPayload()) == h, "header recoverable from payload");
    CHECK(h->userPayloadSize() == ps && h->userPayloadAlignment() == pa && h->userHeaderSize() == hs && h->chunkSize() == cs, "header reports layout");
    CHECK(h->usedSizeOfChunk() == p - (uint64_t)b + ps, "used size is header to payload end");
    CHECK(h->chunkHeaderVersion() == ChunkHeader::CHUNK_HEADER_VERSION, "version");
    if (hs) { uint64_t u = (uint64_t)h->userHeader();
        symx_reach("withheader"); CHECK(u % ha == 0, "user header aligned"); CHECK(u >= (uint64_t)b + sizeof(ChunkHeader) && u + hs <= p, "user header between header and payload"); CHECK(ChunkHeader::fromUserHeader(h->userHeader()) == h, "header recoverable from user header");
        // writing the whole user header must not break the way back from the payload
        for (uint32_t i = 0; i < hs; i++) ((uint8_t*)u)[i] = 0xEE;
        CHECK(ChunkHeader::fromUserPayload((void*)p) == h, "user header does not overlap the back offset"); CHECK(h->userPayload() == (void*)p && h->chunkSize() == cs && h->userPayloadSize() == ps, "user header does not overlap the chunk header");
    } else { CHECK(h->userHeader() == nullptr, "no user header"); if (pa > 8) symx_reach("aligned"); else symx_reach("plain"); }
    *(uint8_t*)p = 0xDD; // first payload byte
    CHECK(ChunkHeader::fromUserPayload((void*)p) == h && h->chunkSize() == cs, "payload does not overlap the header");
}
#endif

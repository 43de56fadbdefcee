// C22: sound buffers.
#include <audio-primitives/Core.h>
#include <audio-primitives/Render.h>
#include <audio-primitives/OfflineClip.h>
#include "sx.h"
using namespace ply;
using audio::Buffer;
using audio::Format;

static s16 get(const char* p, int i) {
    s16 v;
    memcpy(&v, p + i * 2, 2);
    return v;
}
static s32 limited(s32 v) {
    return (v > 32767 ? 32767 : v < -32768 ? -32768 : v);
}
// Rounded down. None of the products below exceeds 32 bits.
static s32 floorShift(s32 v) {
    return v >> 16;
}

static const s32 levels[] = {0, 1, 3, 255, 256, 32767, 32768, 40001, 65535, 65536, -1, -65535};
static const s32 levels30[] = {0, 16383, 16384, 65536 * 3, 1 << 29, 0x2aaaaaaa, (1 << 30) - 1, 1 << 30};
static const s32 steps30[] = {0, 1, -1, 16384, -(1 << 28), 123456789};
static const s16 values[] = {0, 1, -1, 12345, 32767, -32768};
struct Snd {
    Format f;
    int n, first, len;
    SxBuf buf;
    char* before;
    Buffer all, part;
    Snd(Format f_, int len_, const char* name)
        : f{f_}, n{len_ + 2}, first{(int) sx_pick(0, 2, "first")}, len{len_}, buf(n * f_.stride, name) {
        before = (char*) malloc(buf.n);
        memcpy(before, buf.p, buf.n);
        all = Buffer{buf.p, (u32) n, 44100.f, f};
        part = (first == 2 && sx_pick(0, 1, "rest")) ? all.getSubregion(first) : all.getSubregion(first, len);
        CHECK(part.numSamples == (u32) len && part.samples == buf.p + first * f.stride && part.format == f && part.sampleRate == 44100.f);
        CHECK(part.getSizeBytes() == u32(len) * f.stride && part.getEndPtr() == part.samples + len * f.stride);
    }
    ~Snd() { free(before); }
    void choose() {
        for (int i = 0; i < len * f.numChannels; i++) {
            s16 v = values[(sx_pick(0, 5, "value") + i) % 6];
            memcpy(buf.p + first * f.stride + i * 2, &v, 2);
            memcpy(before + first * f.stride + i * 2, &v, 2);
        }
    }
    s16 was(int i) { return get(before, first * f.numChannels + i); }
    s16 is(int i) { return get(buf.p, first * f.numChannels + i); }
    void untouched(bool inside) {
        u32 a = first * f.stride, e = a + len * f.stride;
        if (inside) {
            CHECKM(sx_eq(buf.p, before, buf.n), "the source is unchanged");
            return;
        }
        CHECKM(sx_eq(buf.p, before, a), "samples before the part are unchanged");
        CHECKM(sx_eq(buf.p + e, before + e, buf.n - e), "samples after the part are unchanged");
    }
    Snd(const Snd&) = delete;
};

ENTRY h_snd_mix() {
    sx_mark_heap();
    {
        Format f = Format::encode((u8) sx_pick(1, 2, "channels"), Format::SampleType::S16);
        CHECK(f.stride == 2 * f.numChannels && f == (f.numChannels == 1 ? Format::MonoS16 : Format::StereoS16));
        int n = (int) sx_pick(0, 2, "n"), what = (int) sx_pick(0, 3, "what");
        if (what == 2 && f.numChannels != 2)
            return;
        // Either the samples or the factors are arbitrary; products of two unknowns are out of reach.
        bool samples = what == 0 || sx_pick(0, 1, "samples");
        Snd d{f, n, "dst"}, s{f, n, "src"};
        s64 level = 65536, step = 0;
        if (what == 0) {
            audio::mix(d.part, s.part);
        } else if (what == 1) {
            s32 l = samples ? levels[sx_pick(0, 11, "level")] : (s32) sx_range(0, 131071, "level") - 65535;
            ASSUME(l <= 65536);
            if (!samples)
                s.choose();
            audio::mixLeveled(d.part, s.part, l);
            level = l;
        } else if (what == 2) {
            u32 l = samples ? (u32) levels30[sx_pick(0, 7, "level")] : (u32) sx_range(0, 1u << 30, "level");
            s32 st = samples ? steps30[sx_pick(0, 5, "step")] : (s32) sx_var(32, "step");
            if (!samples)
                s.choose();
            for (int i = 1; i < n; i++) {
                ASSUME(s64(l) + s64(st) * i >= 0 && s64(l) + s64(st) * i <= (1 << 30));
            }
            audio::mixDynLevel(d.part, s.part, l, st);
            level = l;
            step = st;
        } else {
            s.part.zero();
            s.untouched(false);
            for (int i = 0; i < n * f.numChannels; i++) {
                CHECK(s.is(i) == 0);
            }
            return;
        }
        s.untouched(true);
        d.untouched(false);
        for (int i = 0; i < n * f.numChannels; i++) {
            s32 lev = what == 2 ? (s32) (((u32) level + (u32) step * (i / f.numChannels)) >> 14) : (s32) level;
            CHECKM(d.is(i) == limited(d.was(i) + floorShift(s.was(i) * lev)), "each sample is the sum, limited to the range of samples");
        }
        sx_reach("mixed");
    }
    sx_check_leaks();
    sx_reach("end");
}

// Resampling: the input is read at steps of a fraction, between two neighbouring samples.
ENTRY h_snd_pitch() {
    sx_mark_heap();
    {
        int n = (int) sx_pick(1, (int) sx_param("N", 2), "n");
        int len = (int) sx_pick(2, 4, "len");
        SxBuf src(len * 4, "src"), dst(n * 4, "dst");
        char* before = (char*) malloc(dst.n);
        memcpy(before, dst.p, dst.n);
        static const s32 starts[] = {0, 1, 40000}, steps[] = {0, 32767, 65536, 98304, 196607}, volumes[] = {0, 1, 32768, 65535, 65536};
        int kind = (int) sx_param("KIND", 0);
        u32 start = kind == 1 ? (u32) sx_range(0, 65535, "start") : starts[sx_pick(0, 2, "start")];
        u32 step = kind & 1 ? (u32) sx_range(0, 3 << 16, "step") : steps[sx_pick(0, 4, "step")];
        s32 volume = kind == 2 ? (s32) sx_range(0, 65536, "volume") : volumes[sx_pick(0, 4, "volume")];
        if (kind) {
            u32 rot = (u32) sx_pick(0, 5, "value"), by = (u32) sx_pick(1, 5, "by");
            for (u32 i = 0; i < src.n / 2; i++) {
                s16 v = values[(rot + i * by) % 6];
                memcpy(src.p + i * 2, &v, 2);
            }
        }
        for (int i = 0; i < n; i++) {
            ASSUME(((start + step * i) >> 16) + 1 < (u32) len);
        }
        audio::mixPitchedDirect({dst.p, dst.p + dst.n, src.p, src.p + src.n, start, step, volume});
        u32 k = 0, f = start;
        for (int i = 0; i < n; i++) {
            for (int c = 0; c < 2; c++) {
                s32 v = floorShift(get(src.p, k * 2 + c) * (65536 - s32(f)) + get(src.p, k * 2 + 2 + c) * s32(f));
                CHECKM(get(dst.p, i * 2 + c) == limited(get(before, i * 2 + c) + floorShift(v * volume)), "each sample is the interpolated input times the volume");
            }
            f += step;
            k += (u32) sx_concrete(f >> 16);
            f &= 65535;
        }
        free(before);
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_snd_clip() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, 3, "n");
        Format f = Format::encode((u8) sx_pick(1, 2, "channels"), (Format::SampleType) sx_pick(0, 1, "type"));
        CHECK(f.stride == (f.sampleType == Format::SampleType::S16 ? 2 : 4) * f.numChannels);
        audio::OfflineClipNode* node = audio::OfflineClipNode::create(n, 22050.f, f);
        CHECK(node->buffer.numSamples == n && node->buffer.format == f && node->samples.numBytes == n * f.stride);
        node->buffer.zero();
        for (u32 i = 0; i < n * f.stride; i++) {
            CHECK(node->samples.bytes[i] == 0);
        }
        for (u32 i = 0; i < n; i++) {
            CHECK(node->buffer.getSampleAt(i) == node->samples.bytes + i * f.stride);
        }
        delete node;
    }
    sx_check_leaks();
    sx_reach("end");
}

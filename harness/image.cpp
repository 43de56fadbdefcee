// C22: images.
#include <ply-math/Core.h>
#include <image/Core.h>
#include <image/Image.h>
#include <ply-math/Half.h>
#include "sx.h"
using namespace ply;
using image::Format;
using image::Image;
using image::OwnImage;

static int bpp(Format f) {
    switch (f) {
        case Format::Char: case Format::Byte: return 1;
        case Format::Byte2: case Format::S16: case Format::U16: case Format::Half: return 2;
        case Format::Float2: case Format::Half4: return 8;
        case Format::Float4: return 16;
        case Format::Unknown: return 0;
        default: return 4;
    }
}

// A picture in a larger one: rows lie apart, and the bytes around it belong to somebody else.
struct Pic {
    Format f;
    int W, H, x, y, w, h, b, pad;
    SxBuf buf;
    char* before;
    Image all, im;
    static int sizeOf(int W, int H, int b, int pad) { return (W * b + pad) * H; }
    Pic(Format f_, int w_, int h_, const char* name, bool plain = false)
        : f{f_}, W{plain ? w_ : w_ + (int) sx_pick(0, 1, "left") + (int) sx_pick(0, 1, "right")}, H{h_ + 1}, w{w_}, h{h_}, b{bpp(f_)},
          pad{b == 16 || plain ? 0 : (int) sx_pick(0, 1, "pad") * (b > 4 ? 4 : b)}, buf((W * b + pad) * H, name) {
        x = (int) sx_pick(0, W - w, "x");
        y = plain ? 0 : (int) sx_pick(0, H - h, "y");
        before = (char*) malloc(buf.n);
        memcpy(before, buf.p, buf.n);
        all = Image{buf.p, W * b + pad, W, H, f};
        im = image::crop(all, IntRect{{x, y}, {x + w, y + h}});
        CHECK(im.width == w && im.height == h && im.format == f && im.bytespp == b);
        CHECK(sameDims(im, im) && im.dims() == (IntVec2{w, h}));
    }
    ~Pic() { free(before); }
    char* at(int i, int j) { return buf.p + (y + j) * (W * b + pad) + (x + i) * b; }
    char* was(int i, int j) { return before + (y + j) * (W * b + pad) + (x + i) * b; }
    // Everything outside the picture, or everything at all, is as it was.
    void untouched(bool inside) {
        for (int r = 0; r < H; r++) {
            int row = r * (W * b + pad), a = row + x * b, e = a + w * b, end = row + W * b + pad;
            if (inside || r < y || r >= y + h) {
                CHECKM(sx_eq(buf.p + row, before + row, end - row), "bytes outside the picture are unchanged");
            } else {
                CHECKM(sx_eq(buf.p + row, before + row, a - row), "bytes left of the picture are unchanged");
                CHECKM(sx_eq(buf.p + e, before + e, end - e), "bytes right of the picture are unchanged");
            }
        }
    }
    Pic(const Pic&) = delete;
};

static Format anyFormat() {
    return (Format) sx_pick(1, (int) Format::NumFormats - 1, "format");
}

ENTRY h_img_copy() {
    sx_mark_heap();
    {
        Format f = anyFormat();
        int w = (int) sx_pick(1, 2, "w"), h = (int) sx_pick(1, 2, "h");
        Pic p{f, w, h, "a"};
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w; i++) {
                CHECK(p.im.getPixel(i, j) == p.at(i, j));
            }
        }
        OwnImage c = image::copy(p.im);
        CHECK(c.width == w && c.height == h && c.format == f && c.bytespp == p.b && c.stride >= w * p.b);
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w; i++) {
                CHECKM(sx_eq(c.getPixel(i, j), p.was(i, j), p.b), "a copy has the pixels of the original");
            }
        }
        p.untouched(true);
        // Ownership moves along with the pixels
        OwnImage d = std::move(c);
        CHECK(!c.data && c.width == 0 && c.height == 0);
        OwnImage e{1, 1, Format::Byte};
        e = std::move(d);
        CHECK(!d.data && e.width == w && e.height == h && e.format == f && e.bytespp == p.b);
        CHECK(sx_eq(e.getPixel(w - 1, h - 1), p.was(w - 1, h - 1), p.b));
        if (sx_pick(0, 1, "again")) {
            e.alloc(3, 1, Format::Byte2);
            CHECK(e.width == 3 && e.height == 1 && e.bytespp == 2 && e.size() == 6);
            memset(e.data, 1, 6);
        } else {
            char* data = e.release();
            CHECK(!e.data && e.width == 0 && e.height == 0 && e.format == Format::Unknown);
            PLY_HEAP.free(data);
        }
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_img_flip() {
    sx_mark_heap();
    {
        Format f = anyFormat();
        int w = (int) sx_pick(1, 2, "w"), h = (int) sx_pick(1, 3, "h");
        Pic p{f, w, h, "a"};
        OwnImage dst{w, h, f};
        memset(dst.data, 0, dst.size());
        image::verticalFlip(dst, p.im);
        p.untouched(true);
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w; i++) {
                CHECKM(sx_eq(dst.getPixel(i, h - 1 - j), p.was(i, j), p.b), "flipping puts each row at its mirrored place");
            }
        }
        image::verticalFlip(p.im, dst);
        p.untouched(true);
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_img_fill() {
    sx_mark_heap();
    {
        int w = (int) sx_pick(1, 2, "w"), h = (int) sx_pick(1, 2, "h"), what = (int) sx_pick(0, 3, "what");
        Format f = what == 1 ? Format::Float : what == 2 ? Format::Float4 : anyFormat();
        if ((what == 0 || what == 3) && bpp(f) != 4)
            return;
        Pic p{f, w, h, "a"};
        char value[16];
        int n = what == 2 ? 16 : 4;
        sx_bytes(value, n, "value");
        if (what == 0) {
            u32 v;
            memcpy(&v, value, 4);
            image::clear(p.im, v);
        } else if (what == 1) {
            float v;
            memcpy(&v, value, 4);
            image::clear(p.im, v);
        } else if (what == 2) {
            Float4 v;
            memcpy(&v, value, 16);
            image::clear(p.im, v);
        } else {
            OwnImage src{w, h, Format::RGBA};
            sx_bytes(src.data, src.size(), "src");
            image::copy32Bit(p.im, src);
            p.untouched(false);
            for (int j = 0; j < h; j++) {
                for (int i = 0; i < w; i++) {
                    CHECKM(sx_eq(p.at(i, j), src.getPixel(i, j), 4), "copying gives every pixel its value");
                }
            }
            sx_reach("copied");
            return;
        }
        p.untouched(false);
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w; i++) {
                CHECKM(sx_eq(p.at(i, j), value, n), "filling gives every pixel the value");
            }
        }
    }
    sx_check_leaks();
    sx_reach("end");
}

// The half with the same sign and exponent and the upper bits of the mantissa, zero below the smallest normal one.
static bool isHalfOf(u16 half, u32 single) {
    u32 mag = single & 0x7fffffffu;
    u32 back = (u32(half & 0x8000u) << 16) | (u32(half & 0x7fffu) ? (u32(half & 0x7fffu) << 13) + (112u << 23) : 0);
    return mag < (113u << 23) ? half == 0 : back == (single & ~0x1fffu);
}

ENTRY h_img_half() {
    sx_mark_heap();
    {
        int n = (int) sx_pick(0, 2, "channels"), ch = 1 << n;
        Format ff = n == 0 ? Format::Float : n == 1 ? Format::Float2 : Format::Float4;
        Format hf = n == 0 ? Format::Half : n == 1 ? Format::Half2 : Format::Half4;
        int w = (int) sx_pick(1, 2, "w"), h = n == 2 ? 1 : (int) sx_pick(1, 2, "h");
        Pic src{ff, w, h, "src"};
        Pic dst{hf, w, h, "dst"};
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w * ch; i++) {
                u32 v;
                memcpy(&v, src.was(0, j) + i * 4, 4);
                ASSUME((v & 0x7fffffffu) < 0x47800000u);
            }
        }
        if (n == 0)
            image::convertFloatToHalf(dst.im, src.im);
        else if (n == 1)
            image::convertFloat2ToHalf2(dst.im, src.im);
        else
            image::convertFloat4ToHalf4(dst.im, src.im);
        src.untouched(true);
        dst.untouched(false);
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w * ch; i++) {
                u32 v;
                u16 d;
                memcpy(&v, src.was(0, j) + i * 4, 4);
                memcpy(&d, dst.at(0, j) + i * 2, 2);
                CHECKM(isHalfOf(d, v), "conversion to half precision keeps sign, exponent and leading digits");
                if (i + j == 0 && fabsf(*(float*) &v) < 65000.f)
                    CHECK(isHalfOf(floatToHalf(*(float*) &v), v));
            }
        }
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_img_srgb() {
    sx_mark_heap();
    {
        bool every = sx_pick(0, 1, "every");
        int w = every ? 1 : (int) sx_pick(1, 2, "w"), h = every ? 1 : (int) sx_pick(1, 2, "h");
        Pic src{Format::Byte, w, h, "src", every};
        Pic dst{Format::RGBA, w, h, "dst", every};
        int ci = (int) sx_pick(0, w - 1, "ci"), cj = (int) sx_pick(0, h - 1, "cj");
        int value = every ? (int) sx_pick(0, 255, "value") : 200;
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w; i++) {
                *src.at(i, j) = *src.was(i, j) = (char) (i == ci && j == cj ? value : 77);
            }
        }
        image::linearToSRGB(dst.im, src.im);
        src.untouched(true);
        dst.untouched(false);
        for (int j = 0; j < h; j++) {
            for (int i = 0; i < w; i++) {
                u8 v = (u8) *src.was(i, j);
                u8* d = (u8*) dst.at(i, j);
                int want = (int) round(pow(v / 255.0, 1 / 2.2) * 255.0);
                CHECK(d[0] == d[1] && d[1] == d[2]);
                CHECKM(d[0] >= want - 1 && d[0] <= want + 1, "the brightness is the input raised to the power of 1/2.2");
                CHECK(d[3] == 255 - v);
            }
        }
    }
    sx_check_leaks();
    sx_reach("end");
}

ENTRY h_img_color() {
    Int4<u8> c{(u8) sx_var(8, "x"), (u8) sx_var(8, "y"), (u8) sx_var(8, "z"), (u8) sx_var(8, "w")};
    u32 rgba = image::toRGBA(c), abgr = image::toABGR(c);
    u8 m[4];
    memcpy(m, &rgba, 4);
    CHECK(m[0] == c.x && m[1] == c.y && m[2] == c.z && m[3] == c.w);
    memcpy(m, &abgr, 4);
    CHECK(m[0] == c.w && m[1] == c.z && m[2] == c.y && m[3] == c.x);
    sx_reach("end");
}

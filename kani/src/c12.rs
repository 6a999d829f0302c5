//! C12: canvas decoding: every stored pixel format, through the public entry point.
use crate::common::*;
use crate::rt::*;
use crate::spec::*;
use crate::witness;
use image::{DynamicImage, GenericImageView};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use wz_reader::property::png::*;
use wz_reader::util::color::*;
use wz_reader::*;

fn x8(v: u32, bits: u32) -> u8 {
    // replicate the high bits into the low ones
    let v = v << (8 - bits);
    (v | v >> bits) as u8
}
fn rgb565(c: u16) -> [u8; 3] {
    let c = c as u32;
    [x8(c >> 11, 5), x8(c >> 5 & 63, 6), x8(c & 31, 5)]
}
fn nib(v: u8) -> u8 {
    v * 17
}
fn u16at(d: &[u8], i: usize) -> u16 {
    d[i] as u16 | (d[i + 1] as u16) << 8
}
/// the four colours of the 8-byte BC1-style colour block at `o`
fn bc_colors(d: &[u8], o: usize) -> [[u8; 3]; 4] {
    let (c0, c1) = (u16at(d, o), u16at(d, o + 2));
    let (a, b) = (rgb565(c0), rgb565(c1));
    let mut t = [a, b, [0; 3], [0; 3]];
    let mut i = 0;
    while i < 3 {
        let (p, q) = (a[i] as i32, b[i] as i32);
        if c0 > c1 {
            t[2][i] = ((p * 2 + q + 1) / 3) as u8;
            t[3][i] = ((p + q * 2 + 1) / 3) as u8;
        } else {
            t[2][i] = ((p + q) / 2) as u8;
        }
        i += 1;
    }
    t
}
/// the eight alphas of the BC3 alpha block at `o`
fn bc_alphas(d: &[u8], o: usize) -> [u8; 8] {
    let (a0, a1) = (d[o], d[o + 1]);
    let mut t = [a0, a1, 0, 0, 0, 0, 0, 255];
    let mut c = 2i32;
    while c < 8 {
        if a0 > a1 {
            t[c as usize] = (((8 - c) * a0 as i32 + (c - 1) * a1 as i32 + 3) / 7) as u8;
        } else if c < 6 {
            t[c as usize] = (((6 - c) * a0 as i32 + (c - 1) * a1 as i32 + 2) / 5) as u8;
        }
        c += 1;
    }
    t
}
/// the texels of the block at `o`, row by row
fn bc_block(dxt5: bool, d: &[u8], o: usize) -> [[u8; 4]; 16] {
    let colors = bc_colors(d, o + 8);
    let alphas = if dxt5 { bc_alphas(d, o) } else { [0; 8] };
    let mut out = [[0; 4]; 16];
    let mut t = 0;
    while t < 16 {
        let c = colors[(d[o + 12 + t / 4] >> (2 * (t % 4)) & 3) as usize];
        let a = if dxt5 {
            let h = o + 2 + 3 * (t / 8);
            let bits = d[h] as u32 | (d[h + 1] as u32) << 8 | (d[h + 2] as u32) << 16;
            alphas[(bits >> (3 * (t % 8)) & 7) as usize]
        } else {
            nib(d[o + t / 2] >> (4 * (t % 2)) & 15)
        };
        out[t] = [c[0], c[1], c[2], a];
        t += 1;
    }
    out
}
/// the pixel a viewer must show, per format code
fn pixel(format: u32, d: &[u8], w: usize, x: usize, y: usize) -> [u8; 4] {
    let i = x + y * w;
    match format {
        1 => [nib(d[2 * i + 1] & 15), nib(d[2 * i] >> 4), nib(d[2 * i] & 15), nib(d[2 * i + 1] >> 4)],
        2 => [d[4 * i + 2], d[4 * i + 1], d[4 * i], d[4 * i + 3]],
        257 => {
            let c = u16at(d, 2 * i) as u32;
            [x8(c >> 10 & 31, 5), x8(c >> 5 & 31, 5), x8(c & 31, 5), if c >= 0x8000 { 255 } else { 0 }]
        }
        513 => {
            let c = rgb565(u16at(d, 2 * i));
            [c[0], c[1], c[2], 255]
        }
        517 => {
            let c = rgb565(u16at(d, 2 * (x / 16 + y / 16 * (w / 16))));
            [c[0], c[1], c[2], 255]
        }
        2562 => {
            let p = u16at(d, 4 * i) as u32 | (u16at(d, 4 * i + 2) as u32) << 16;
            [(p >> 2) as u8, (p >> 12) as u8, (p >> 22) as u8, (p >> 30) as u8 * 85]
        }
        // 16 bit red
        769 => [d[2 * i + 1], 0, 0, 255],
        _ => [0; 4],
    }
}
fn append(v: &mut Vec<u8>, d: &[u8]) {
    let mut i = 0;
    while i < d.len() {
        v.push(d[i]);
        i += 1;
    }
}
/// a zlib stream (header 78 9C) or a raw deflate stream holding `d` in a stored block
pub fn zstream(d: &[u8], header: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len() + 12);
    if header {
        v.push(0x78);
        v.push(0x9C);
    }
    v.push(1);
    #[cfg(kani)]
    v.push(0);
    #[cfg(not(kani))]
    {
        v.extend((d.len() as u16).to_le_bytes());
        v.extend((!(d.len() as u16)).to_le_bytes());
    }
    append(&mut v, d);
    #[cfg(not(kani))]
    if header {
        let (mut a, mut b) = (1u32, 0u32);
        for x in d {
            a = (a + *x as u32) % 65521;
            b = (b + a) % 65521;
        }
        v.extend((b << 16 | a).to_be_bytes());
    }
    v
}
/// decode an image stored after `pad` other bytes; the format is split over the two fields
fn decode(format: u32, f2: u32, d: &[u8], w: u32, h: u32) -> DynamicImage {
    let z = zstream(d, true);
    let n = z.len();
    let mut b = Vec::with_capacity(n + 3);
    b.push(7);
    b.push(0x78);
    append(&mut b, &z);
    b.push(9);
    let r = plain_reader(&b);
    let png = WzPng::new(&r, (w, h), (format - f2, f2), (2, n), 0x9C78, 0);
    let img = png.extract_png();
    leak(png);
    leak((r, b, z));
    assert!(img.is_ok(), "a well-formed image is refused");
    match img {
        Ok(i) => i,
        Err(_) => unreachable!(),
    }
}
fn at(img: &DynamicImage, x: u32, y: u32) -> [u8; 4] {
    match img {
        DynamicImage::ImageRgba8(b) => b.get_pixel(x, y).0,
        DynamicImage::ImageRgb8(b) => {
            let p = b.get_pixel(x, y).0;
            [p[0], p[1], p[2], 255]
        }
        DynamicImage::ImageRgba16(b) => {
            let p = b.get_pixel(x, y).0;
            assert!(p[1] == 0 && p[2] == 0 && p[3] == 0xffff);
            [(p[0] >> 8) as u8, 0, 0, 255]
        }
        _ => panic!("unexpected image kind"),
    }
}
/// the pixel the contract is about
// (an initial value no constant shares: Kani merges equal allocations)
static SPOT: AtomicU64 = AtomicU64::new(0x5EED_C0DE_0D15_EA5E);
#[cfg(kani)]
const EVERY: u64 = u64::MAX;
/// assumed contract of `ImageBuffer::from_par_fn`: every pixel is what the function gives
/// for it (the buffer is only filled at the arbitrary pixel the harness looks at)
#[cfg(kani)]
pub struct Stub<P>(P);
#[cfg(kani)]
impl<P> Stub<P>
where
    P: image::Pixel + Send + Sync,
    P::Subpixel: Send + Sync,
{
    pub fn from_par_fn<F>(w: u32, h: u32, f: F) -> image::ImageBuffer<P, Vec<P::Subpixel>>
    where
        F: Fn(u32, u32) -> P + Send + Sync,
    {
        let mut b = image::ImageBuffer::new(w, h);
        let s = SPOT.load(Relaxed);
        if s == EVERY {
            let mut y = 0;
            while y < h {
                let mut x = 0;
                while x < w {
                    *b.get_pixel_mut(x, y) = f(x, y);
                    x += 1;
                }
                y += 1;
            }
            return b;
        }
        let (x, y) = (s as u32, (s >> 32) as u32);
        *b.get_pixel_mut(x, y) = f(x, y);
        b
    }
}
/// the block formats: every pixel of the image, one after the other
fn shows_blocks(format: u32, f2: u32, d: &[u8], w: u32, h: u32) {
    SPOT.store(u64::MAX, Relaxed);
    let img = decode(format, f2, d, w, h);
    assert!(img.width() == w && img.height() == h, "wrong size");
    let (bw, bh) = ((w as usize + 3) / 4, (h as usize + 3) / 4);
    let mut k = 0;
    while k < bw * bh {
        let block = bc_block(format == 2050, d, 16 * k);
        let mut t = 0;
        while t < 16 {
            let (x, y) = (k % bw * 4 + t % 4, k / bw * 4 + t / 4);
            if x < w as usize && y < h as usize {
                assert!(at(&img, x as u32, y as u32) == block[t], "wrong pixel");
            }
            t += 1;
        }
        k += 1;
    }
    witness!();
    leak(img);
}
fn shows(format: u32, f2: u32, d: &[u8], w: u32, h: u32) {
    let x = range(0, w as usize - 1);
    let y = range(0, h as usize - 1);
    SPOT.store((y as u64) << 32 | x as u64, Relaxed);
    let img = decode(format, f2, d, w, h);
    assert!(img.width() == w && img.height() == h, "wrong size");
    assert!(at(&img, x as u32, y as u32) == pixel(format, d, w as usize, x, y), "wrong pixel");
    if format == 769 {
        if let DynamicImage::ImageRgba16(b) = &img {
            assert!(b.get_pixel(x as u32, y as u32).0[0] == u16at(d, 2 * (x + y * w as usize)));
        }
    }
    witness!(x == 1 && y == 1);
    leak(img);
}

macro_rules! image_harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(image::ImageBuffer::from_par_fn, Stub::from_par_fn))]
            pub fn $name() { $body }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
image_harnesses! {
    c12_color_conversions [6] {
        let c: u16 = any();
        let p: image::Rgb<u8> = SimpleColor::from_rgb565(c);
        assert!(p.0 == rgb565(c));
        let q: image::Rgba<u8> = SimpleColor::from_rgb565(c);
        let w = rgb565(c);
        assert!(q.0 == [w[0], w[1], w[2], 255]);
        let r: image::Rgba<u8> = SimpleColorAlpha::from_argb1555(c);
        let c = c as u32;
        assert!(r.0 == [x8(c >> 10 & 31, 5), x8(c >> 5 & 31, 5), x8(c & 31, 5), if c >= 0x8000 { 255 } else { 0 }]);
        witness!(c == 0x8001);
    }
    c12_format_codes [4] {
        let c: u32 = any();
        let f = WzPngFormat::from(c);
        assert!((f == WzPngFormat::BGRA4444) == (c == 1));
        assert!((f == WzPngFormat::BGRA8888) == (c == 2));
        assert!((f == WzPngFormat::DXT3SM) == (c == 3));
        assert!((f == WzPngFormat::ARGB1555) == (c == 257));
        assert!((f == WzPngFormat::RGB565) == (c == 513));
        assert!((f == WzPngFormat::RGB565_517) == (c == 517));
        assert!((f == WzPngFormat::R16) == (c == 769));
        assert!((f == WzPngFormat::DXT3) == (c == 1026));
        assert!((f == WzPngFormat::DXT5) == (c == 2050));
        assert!((f == WzPngFormat::A8) == (c == 2304));
        assert!((f == WzPngFormat::RGBA1010102) == (c == 2562));
        assert!((f == WzPngFormat::DXT1) == (c == 4097));
        assert!((f == WzPngFormat::BC7) == (c == 4098));
        assert!((f == WzPngFormat::RGBA32Float) == (c == 4100));
        witness!(c == 3);
    }
    c12_bgra4444 [32] { let d: [u8; 12] = any(); shows(1, 0, &d, 3, 2) }
    c12_bgra8888 [32] { let d: [u8; 24] = any(); shows(2, 1, &d, 3, 2) }
    c12_argb1555 [32] { let d: [u8; 12] = any(); shows(257, 256, &d, 3, 2) }
    c12_rgb565 [32] { let d: [u8; 12] = any(); shows(513, 1, &d, 3, 2) }
    c12_r16 [32] { let d: [u8; 12] = any(); shows(769, 1, &d, 3, 2) }
    c12_rgba1010102 [32] { let d: [u8; 24] = any(); shows(2562, 2, &d, 3, 2) }
    c12_dxt3 [32] { let d: [u8; 16] = any(); shows_blocks(1026, 2, &d, 4, 4) }
    c12_dxt5 [32] { let d: [u8; 16] = any(); shows_blocks(2050, 2, &d, 4, 4) }
    //@ tier=thorough
    c12_dxt3_blocks [80] { let d: [u8; 64] = any(); shows_blocks(1026, 2, &d, 6, 7) }
    //@ tier=thorough
    c12_dxt5_blocks [80] { let d: [u8; 64] = any(); shows_blocks(2050, 2, &d, 7, 5) }
    //@ tier=native
    c12_517 [1100] { let d: [u8; 8] = any(); shows(517, 4, &d, 32, 32) }
}

//! PGS objects of given shapes.
use crate::model::*;
use crate::sa::*;
use subtile::image::{ImageSize, Luma, ToOcrImage, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, RleEncodedImage, RleToImage, SupParser};

/// PGS streams of one subtitle with two palette entries.
pub mod sup {
    use super::*;
    use crate::p1::sup::*;
    pub const DATA: usize = 13 + 12 + 13 + 11;
    /// `w` x `h` pixels encoded in `n` bytes from `DATA` on, two palette
    /// entries with the identifiers `ids`.
    pub fn image(d: &'static [u8], w: u8, h: u8, n: u8, ids: [u8; 2]) -> Option<RleEncodedImage> {
        let a = sized(d, 0, 0x14, 12);
        assume(d[15] == ids[0] && d[20] == ids[1]);
        let b = sized(d, a, 0x15, 11 + n);
        let o = a + 13;
        assume(d[o + 3] == 0xc0);
        assume(d[o + 4] == 0 && d[o + 5] == 0 && d[o + 6] == 4 + n);
        assume(d[o + 7] == 0 && d[o + 8] == w && d[o + 9] == 0 && d[o + 10] == h);
        let c = end(d, b);
        end(d, c);
        decoded(d)
    }
    pub fn decoded(d: &'static [u8]) -> Option<RleEncodedImage> {
        let mut p = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d));
        match p.next() {
            Some(Ok((_, img))) => Some(img),
            _ => {
                never("a complete subtitle is decoded");
                None
            }
        }
    }
    /// The pixel is that of the `i`-th palette entry.
    pub fn entry(d: &[u8], px: image::LumaA<u8>, i: usize) -> bool {
        px.0[0] == d[15 + 5 * i + 1] && px.0[1] == d[15 + 5 * i + 4]
    }
}

pub mod c20 {
    use super::*;
    /// Six pixels in two rows.
    fn at(e: &mut Env, x: u32, y: u32) {
        let d = any_bytes();
        e.at = (x, y);
        let o = sup::DATA;
        let Some(img) = sup::image(d, 3, 2, 6, [7, 9]) else { return };
        let ids = [7, 9, 9, 9, 7, 7];
        assume(d[o] == 7 && d[o + 1] == 9 && d[o + 2] == 9 && d[o + 3] == 9 && d[o + 4] == 7 && d[o + 5] == 7);
        let opt = ToOcrImageOpt { border: 2, ..any() };
        let out = RleToImage::new(&img, |p: image::LumaA<u8>| Luma([p.0[0]])).image(&opt);
        check(out.width() == 7 && out.height() == 6, "pgs: the size of the image and the borders");
        if !e.seen {
            return unknown("the image is not made by `from_fn`");
        }
        let px = e.pixel::<Luma<u8>>();
        let want = if x < 2 || y < 2 || x >= 5 || y >= 4 {
            opt.background_color.0[0]
        } else if ids[((y - 2) * 3 + (x - 2)) as usize] == 7 {
            d[16]
        } else {
            d[21]
        };
        check(px.0[0] == want, "pgs: the background colour in the border, else the pixel of the source");
    }
    pub fn pgs_2_2() {
        let mut e = Env::new();
        at(&mut e, 2, 2);
        drop(e);
    }
    pub fn pgs_3_2() {
        let mut e = Env::new();
        at(&mut e, 3, 2);
        drop(e);
    }
    pub fn pgs_4_2() {
        let mut e = Env::new();
        at(&mut e, 4, 2);
        drop(e);
    }
    pub fn pgs_2_3() {
        let mut e = Env::new();
        at(&mut e, 2, 3);
        drop(e);
    }
    pub fn pgs_3_3() {
        let mut e = Env::new();
        at(&mut e, 3, 3);
        drop(e);
    }
    pub fn pgs_4_3() {
        let mut e = Env::new();
        at(&mut e, 4, 3);
        drop(e);
    }
    pub fn pgs_1_2() {
        let mut e = Env::new();
        at(&mut e, 1, 2);
        drop(e);
    }
    pub fn pgs_5_3() {
        let mut e = Env::new();
        at(&mut e, 5, 3);
        drop(e);
    }
    pub fn pgs_3_1() {
        let mut e = Env::new();
        at(&mut e, 3, 1);
        drop(e);
    }
    pub fn pgs_2_4() {
        let mut e = Env::new();
        at(&mut e, 2, 4);
        drop(e);
    }
    pub fn pgs_0_0() {
        let mut e = Env::new();
        at(&mut e, 0, 0);
        drop(e);
    }
    pub fn pgs_6_5() {
        let mut e = Env::new();
        at(&mut e, 6, 5);
        drop(e);
    }
}

pub mod c33 {
    use super::*;
    /// Every colour in one pixel of its own, with an end of line between.
    pub fn literals() {
        let d = any_bytes();
        let o = sup::DATA;
        let Some(img) = sup::image(d, 3, 2, 6, [1, 255]) else { return };
        assume(d[o] == 1 && d[o + 1] == 255 && d[o + 2] == 2);
        assume(d[o + 3] == 0 && d[o + 4] == 0 && d[o + 5] == 255);
        let mut it = img.iter();
        check(it.next().map_or(false, |p| sup::entry(d, p, 0)), "the first pixel has the first colour");
        check(it.next().map_or(false, |p| sup::entry(d, p, 1)), "the second pixel has the second colour");
        check(it.next().map_or(false, |p| p.0 == [255, 0]), "a colour without entry is white and transparent");
        check(it.next().map_or(false, |p| sup::entry(d, p, 1)), "an end of line encodes no pixel");
        check(it.next().map_or(false, |p| p.0 == [255, 0]), "pixels that are not encoded are white and transparent");
        check(it.next().map_or(false, |p| p.0 == [255, 0]), "all pixels that are not encoded are white and transparent");
        check(it.next().is_none(), "that are all pixels");
    }
    /// `n` pixels of entry `a`, then one of entry 1.
    fn run(img: &RleEncodedImage, d: &[u8], n: usize, a: usize, what: &'static str) {
        let mut it = img.iter();
        for _ in 0..n {
            check(it.next().map_or(false, |p| sup::entry(d, p, a)), what);
        }
        check(it.next().map_or(false, |p| sup::entry(d, p, 1)), what);
    }
    fn short0(n: u8, what: &'static str) {
        let d = any_bytes();
        let o = sup::DATA;
        let Some(img) = sup::image(d, 100, 2, 3, [0, 5]) else { return };
        assume(d[o] == 0 && d[o + 1] == n && d[o + 2] == 5);
        run(&img, d, n as usize, 0, what);
    }
    fn short_n(n: u8, what: &'static str) {
        let d = any_bytes();
        let o = sup::DATA;
        let Some(img) = sup::image(d, 100, 2, 4, [3, 5]) else { return };
        assume(d[o] == 0 && d[o + 1] == 0x80 + n && d[o + 2] == 3 && d[o + 3] == 5);
        run(&img, d, n as usize, 0, what);
    }
    fn long0(n: u16, what: &'static str) {
        let d = any_bytes();
        let o = sup::DATA;
        let Some(img) = sup::image(d, 100, 20, 4, [0, 5]) else { return };
        assume(d[o] == 0 && d[o + 1] == 0x40 + (n / 256) as u8 && d[o + 2] == (n % 256) as u8 && d[o + 3] == 5);
        run(&img, d, n as usize, 0, what);
    }
    fn long_n(n: u16, what: &'static str) {
        let d = any_bytes();
        let o = sup::DATA;
        let Some(img) = sup::image(d, 100, 20, 5, [3, 5]) else { return };
        assume(d[o] == 0 && d[o + 1] == 0xc0 + (n / 256) as u8 && d[o + 2] == (n % 256) as u8 && d[o + 3] == 3 && d[o + 4] == 5);
        run(&img, d, n as usize, 0, what);
    }
    pub fn short0_1() {
        short0(1, "00 01: one pixel of colour 0");
    }
    pub fn short0_37() {
        short0(37, "00 25: 37 pixels of colour 0");
    }
    pub fn short0_63() {
        short0(63, "00 3f: 63 pixels of colour 0");
    }
    pub fn short_n_1() {
        short_n(1, "00 81 c: one pixel of colour c");
    }
    pub fn short_n_63() {
        short_n(63, "00 bf c: 63 pixels of colour c");
    }
    pub fn long0_64() {
        long0(64, "00 40 40: 64 pixels of colour 0");
    }
    pub fn long0_300() {
        long0(300, "00 41 2c: 300 pixels of colour 0");
    }
    pub fn long_n_255() {
        long_n(255, "00 c0 ff c: 255 pixels of colour c");
    }
    pub fn long_n_257() {
        long_n(257, "00 c1 01 c: 257 pixels of colour c");
    }
}

pub mod c34 {
    use super::*;
    use crate::p1::sup::*;
    /// An object of 2 x 3 pixels in two segments.
    fn split(n: u8, what: &'static str) {
        let d = any_bytes();
        let a = sized(d, 0, 0x14, 12);
        assume(d[15] == 1 && d[20] == 2);
        let b = sized(d, a, 0x15, 11 + n);
        let o = a + 13;
        assume(d[o + 3] == 0x80);
        assume(d[o + 4] == 0 && d[o + 5] == 0 && d[o + 6] == 4 + 6);
        assume(d[o + 7] == 0 && d[o + 8] == 2 && d[o + 9] == 0 && d[o + 10] == 3);
        let c = sized(d, b, 0x15, 4 + 6 - n);
        let q = b + 13;
        assume(d[q + 3] == 0x40);
        let e = end(d, c);
        end(d, e);
        let colour = [1u8, 2, 2, 1, 2, 1];
        for i in 0..6 {
            let p = if i < n as usize { o + 11 + i } else { q + 4 + i - n as usize };
            assume(d[p] == colour[i]);
        }
        let Some(img) = super::sup::decoded(d) else { return };
        check(img.width() == 2 && img.height() == 3, "the size of the first segment");
        let mut it = img.iter();
        for i in 0..6 {
            check(it.next().map_or(false, |p| super::sup::entry(d, p, colour[i] as usize - 1)), what);
        }
    }
    pub fn half() {
        split(3, "the parts follow one another");
    }
    pub fn one_and_rest() {
        split(1, "the rest follows the first byte");
    }
    pub fn all_but_one() {
        split(5, "the last byte follows the rest");
    }
}

/// Content that ends inside the body of a segment.
pub mod c07 {
    use crate::p1::sup::*;
    use crate::sa::*;
    use subtile::pgs::{DecodeTimeImage, SupParser};
    fn judge(d: &'static [u8]) {
        let r = SupParser::<_, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(_))), "the end of the content inside a segment is reported");
    }
    pub fn palette() {
        let d = any_bytes();
        let b = header(d, 0, 0x14);
        assume(d.len() < b + be16(d, b - 2));
        judge(d);
    }
    pub fn object() {
        let d = any_bytes();
        let b = header(d, 0, 0x15);
        assume(d.len() < b + be16(d, b - 2));
        judge(d);
    }
    pub fn object_part() {
        let d = any_bytes();
        let p = sized(d, 0, 0x14, 2);
        sized(d, p, 0x15, 15);
        let o = p + 13;
        assume(d[o + 3] == 0x80);
        assume(d[o + 4] == 0 && d[o + 5] == 0 && d[o + 6] == 12);
        let b = header(d, o + 15, 0x15);
        assume(d[b - 2] == 0 && d[b - 1] == 8);
        assume(d.len() < b + 8);
        judge(d);
    }
}

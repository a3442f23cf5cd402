//! Decoded and rendered images, and iterators.
use crate::model::*;
use crate::sa::*;
use subtile::content::{Area, AreaValues};
use subtile::image::{luma_a_to_luma, ImageArea, ImageSize, Luma, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, RleEncodedImage, RleToImage, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{conv_to_rgba, palette_rgb_to_luminance, Palette, Sub, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};

pub mod c08 {
    use super::*;
    /// One item from any position of any content; the image is judged where
    /// it is made (see `model::vobsub_image`).
    pub fn next() {
        let mut p = any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        drop(p.next());
    }
}

pub mod c28 {
    use super::*;
    pub fn image() {
        let mut p = any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        if p.next().is_none() {
            check(p.next().is_none(), "after the end comes the end");
        }
    }
    pub fn time() {
        let mut p = any_like(|s: &'static Sub| s.subtitles::<TimeSpan>());
        if p.next().is_none() {
            check(p.next().is_none(), "after the end comes the end");
        }
    }
}

pub mod c29 {
    use super::*;
    /// True of an iterator at one point if it is true at the next one.
    fn hint<I: Iterator>(mut p: I) {
        let (lo, hi) = p.size_hint();
        if p.next().is_some() {
            let (lo2, hi2) = p.size_hint();
            check(lo <= lo2.saturating_add(1), "the lower bound counts the item");
            let fits = match (hi, hi2) {
                (Some(a), Some(b)) => b < a,
                (Some(_), None) => false,
                (None, _) => true,
            };
            check(fits, "the upper bound counts the item");
        } else {
            check(lo == 0, "at the end the lower bound is 0");
        }
    }
    pub fn sub() {
        hint(any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>()));
    }
    pub fn sup_time() {
        hint(SupParser::<FullReader, DecodeTimeOnly>::new(FullReader { data: any_bytes(), pos: any() }));
    }
    pub fn sup_image() {
        hint(SupParser::<FullReader, DecodeTimeImage>::new(FullReader { data: any_bytes(), pos: any() }));
    }
    pub fn pixels() {
        hint(any_like(|i: &'static RleEncodedImage| i.iter()));
    }
    /// The pixel iterator counts down from the size of the image.
    pub fn exact() {
        let mut p = any_like(|i: &'static RleEncodedImage| i.iter());
        let n = p.len();
        let (lo, hi) = p.size_hint();
        check(lo == n && hi == Some(n), "both bounds are the exact number");
        if p.next().is_some() {
            check(n > 0 && p.len() == n - 1, "one less for every pixel");
        } else {
            check(n == 0 && p.len() == 0, "the end comes when none is left");
        }
    }
    pub fn start() {
        let (w, h) = (any::<u16>(), any::<u16>());
        let img = RleEncodedImage::new(w, h, any(), any());
        check(img.iter().len() == w as usize * h as usize, "all pixels are to come");
        check((&img).into_iter().len() == w as usize * h as usize, "all pixels are to come, into_iter");
    }
}

/// Any image a `.sub` file can hold (see C08).
fn vobsub() -> (VobSubIndexedImage, u32, u32) {
    let a = Area::try_from(any::<AreaValues>());
    assume(a.is_ok());
    let a = a.ok().unwrap();
    let (w, h) = (a.width() as u32, a.height() as u32);
    let v = any_vec_below(8, 15);
    let (p, q) = ([v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]]);
    (VobSubIndexedImage::new(a, p, q, any_vec_below(w as usize * h as usize, 3)), w, h)
}
fn option(w: u32, h: u32) -> ToOcrImageOpt {
    let b = any::<u32>();
    assume(w as u64 + 2 * b as u64 <= u32::MAX as u64);
    assume(h as u64 + 2 * b as u64 <= u32::MAX as u64);
    ToOcrImageOpt { border: b, ..any() }
}

pub mod c04 {
    use super::*;
    pub fn to_image() {
        let mut e = Env::new();
        e.at = (any(), any());
        let (img, w, h) = vobsub();
        let pal: Palette = any();
        let out = VobSubToImage::new(&img, &pal, conv_to_rgba).to_image();
        check(out.width() == w && out.height() == h, "the image has the size of the area");
        drop(e);
    }
    pub fn ocr() {
        let mut e = Env::new();
        e.at = (any(), any());
        let (img, w, h) = vobsub();
        let opt = option(w, h);
        let lum: Palette = any();
        let pal = palette_rgb_to_luminance(&lum);
        let out = VobSubOcrImage::new(&img, &pal).image(&opt);
        check(out.width() == w + 2 * opt.border && out.height() == h + 2 * opt.border, "the image has the size of the area and the borders");
        drop(e);
    }
}

pub mod c03 {
    use super::*;
    fn any_image(_: ()) -> RleEncodedImage {
        RleEncodedImage::new(any(), any(), any(), any())
    }
    /// The iteration ends, after exactly one item for every pixel.
    pub fn pixels() {
        let img = any_image(());
        let n = img.width() as usize * img.height() as usize;
        let mut k = 0usize;
        let mut it = img.iter();
        while let Some(p) = it.next() {
            drop(p);
            k += 1;
        }
        check(k == n, "one item for every pixel");
    }
    pub fn to_image() {
        let img = any_image(());
        let out = RleToImage::new(&img, |p| p).to_image();
        check(out.width() == img.width() && out.height() == img.height(), "the image has the declared size");
    }
    pub fn ocr() {
        let mut e = Env::new();
        e.at = (any(), any());
        let img = any_image(());
        let opt = option(img.width(), img.height());
        let out = RleToImage::new(&img, luma_a_to_luma::<_, _, 100, 100>).image(&opt);
        check(out.width() == img.width() + 2 * opt.border && out.height() == img.height() + 2 * opt.border, "the image has the declared size and the borders");
        drop(e);
    }
}

/// The loops of the conversions (see also `p6::c06`).
pub mod c06 {
    use super::*;
    fn any_image(_: ()) -> RleEncodedImage {
        RleEncodedImage::new(any(), any(), any(), any())
    }
    pub fn pgs_pixels() {
        let img = any_image(());
        let mut it = img.iter();
        while let Some(p) = it.next() {
            drop(p);
        }
    }
    pub fn pgs_image() {
        let img = any_image(());
        drop(RleToImage::new(&img, |p| p).to_image());
    }
    pub fn pgs_ocr() {
        let mut e = Env::new();
        e.at = (any(), any());
        let img = any_image(());
        let opt = option(img.width(), img.height());
        drop(RleToImage::new(&img, luma_a_to_luma::<_, _, 100, 100>).image(&opt));
        drop(e);
    }
    pub fn vobsub_image() {
        let mut e = Env::new();
        e.at = (any(), any());
        let (img, _, _) = vobsub();
        let pal: Palette = any();
        drop(VobSubToImage::new(&img, &pal, conv_to_rgba).to_image());
        drop(e);
    }
}

pub mod c20 {
    use super::*;
    /// One of the four colours is any, the other three are background
    /// (`alpha` 0) or text.
    fn colour(e: &mut Env, k: usize, others: u8) {
        let (x, y) = (any::<u32>(), any::<u32>());
        e.at = (x, y);
        let (img, w, h) = vobsub();
        let opt = option(w, h);
        let b = opt.border;
        let mut lum: [Luma<u8>; 16] = any();
        lum[5] = Luma([77]);
        assume(img.palette()[k] == 11);
        for j in 0..4 {
            if j != k {
                assume(img.alpha()[j] == others && img.palette()[j] == 5);
            }
        }
        let out = VobSubOcrImage::new(&img, &lum).image(&opt);
        check(out.width() == w + 2 * b && out.height() == h + 2 * b, "vobsub: the size of the area and the borders");
        if x < w + 2 * b && y < h + 2 * b {
            if !e.seen {
                return unknown("the image is not made by `from_fn`");
            }
            let px = e.pixel::<Luma<u8>>();
            if x < b || y < b || x >= b + w || y >= b + h {
                check(px.0[0] == opt.background_color.0[0], "vobsub: the border has the background colour");
            } else {
                let c = img.raw_image()[((y - b) * w + (x - b)) as usize] as usize;
                let text = if c == k { lum[img.palette()[k] as usize].0[0] != 0 && img.alpha()[k] != 0 } else { others != 0 };
                let want = if text { opt.text_color } else { opt.background_color };
                check(px.0[0] == want.0[0], "vobsub: text where luminance and alpha are not 0");
            }
        }
    }
    pub fn colour0_background() {
        let mut e = Env::new();
        colour(&mut e, 0, 0);
        drop(e);
    }
    pub fn colour0_text() {
        let mut e = Env::new();
        colour(&mut e, 0, 9);
        drop(e);
    }
    pub fn colour1_background() {
        let mut e = Env::new();
        colour(&mut e, 1, 0);
        drop(e);
    }
    pub fn colour1_text() {
        let mut e = Env::new();
        colour(&mut e, 1, 9);
        drop(e);
    }
    pub fn colour2_background() {
        let mut e = Env::new();
        colour(&mut e, 2, 0);
        drop(e);
    }
    pub fn colour2_text() {
        let mut e = Env::new();
        colour(&mut e, 2, 9);
        drop(e);
    }
    pub fn colour3_background() {
        let mut e = Env::new();
        colour(&mut e, 3, 0);
        drop(e);
    }
    pub fn colour3_text() {
        let mut e = Env::new();
        colour(&mut e, 3, 9);
        drop(e);
    }
}

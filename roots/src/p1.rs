//! Entry points and obligations of the properties (one module each).
use crate::sa::*;

pub mod c01 {
    use super::*;
    use subtile::time::TimeSpan;
    use subtile::vobsub::{Sub, VobSubIndexedImage};
    pub fn open() {
        let _ = Sub::open("any.sub");
    }
    /// One item from any position of any content.
    pub fn next() {
        let mut p = any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        drop(p.next());
    }
}
pub mod c02 {
    use super::*;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
    pub fn time_only() {
        let mut p = SupParser::<AnyReader, DecodeTimeOnly>::new(AnyReader::new());
        while let Some(item) = p.next() {
            drop(item);
        }
    }
    pub fn time_image() {
        let mut p = SupParser::<AnyReader, DecodeTimeImage>::new(AnyReader::new());
        while let Some(item) = p.next() {
            drop(item);
        }
    }
    pub fn from_file() {
        let _ = SupParser::<std::io::BufReader<std::fs::File>, DecodeTimeOnly>::from_file("any.sup").is_ok();
        let _ = SupParser::<std::io::BufReader<std::fs::File>, DecodeTimeImage>::from_file("any.sup").is_ok();
    }
}

/// What one call of an iterator asks memory for.
pub mod c30 {
    use super::*;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
    use subtile::time::TimeSpan;
    use subtile::vobsub::{Sub, VobSubIndexedImage};
    pub fn sub() {
        let mut p = any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        drop(p.next());
    }
    pub fn sup_time() {
        drop(SupParser::<AnyReader, DecodeTimeOnly>::new(AnyReader::new()).next());
    }
    pub fn sup_image() {
        drop(SupParser::<AnyReader, DecodeTimeImage>::new(AnyReader::new()).next());
    }
}

/// Streams of given segments with any content.
pub mod sup {
    use super::*;
    pub fn be16(d: &[u8], i: usize) -> usize {
        d[i] as usize * 256 + d[i + 1] as usize
    }
    pub fn be32(d: &[u8], i: usize) -> i64 {
        ((d[i] as i64 * 256 + d[i + 1] as i64) * 256 + d[i + 2] as i64) * 256 + d[i + 3] as i64
    }
    /// The header of a segment of this type stands at `i`; where it ends.
    pub fn header(d: &[u8], i: usize, code: u8) -> usize {
        assume(d.len() >= i + 13);
        assume(d[i] == 0x50 && d[i + 1] == 0x47 && d[i + 10] == code);
        i + 13
    }
    pub fn end(d: &[u8], i: usize) -> usize {
        let j = header(d, i, 0x80);
        assume(d[i + 11] == 0 && d[i + 12] == 0);
        j
    }
    /// A segment whose content is skipped.
    pub fn skipped(d: &[u8], i: usize, code: u8) -> usize {
        let j = header(d, i, code) + be16(d, i + 11);
        assume(d.len() >= j);
        j
    }
    /// A segment of this size.
    pub fn sized(d: &[u8], i: usize, code: u8, size: u8) -> usize {
        header(d, i, code);
        assume(d[i + 11] == 0 && d[i + 12] == size);
        let j = i + 13 + size as usize;
        assume(d.len() >= j);
        j
    }
    /// A palette of `n` entries.
    pub fn palette(d: &[u8], i: usize, n: usize) -> usize {
        header(d, i, 0x14);
        let size = 2 + 5 * n;
        assume(d[i + 11] as usize == size / 256 && d[i + 12] as usize == size % 256);
        let j = i + 13 + size;
        assume(d.len() >= j);
        j
    }
    /// An object in one segment, with one byte of data or more.
    pub fn object(d: &[u8], i: usize) -> usize {
        let j = skipped(d, i, 0x15);
        assume(j >= i + 25);
        assume(d[i + 16] == 0xc0);
        assume((d[i + 17] as usize * 256 + d[i + 18] as usize) * 256 + d[i + 19] as usize == j - i - 13 - 7);
        j
    }
    pub fn msecs(d: &[u8], header: usize) -> i64 {
        be32(d, header + 2) / 90
    }
}

pub mod c10 {
    use super::sup::*;
    use super::*;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
    fn one(d: &'static [u8], a: usize, b: usize) {
        let mut p = SupParser::<FullReader, DecodeTimeOnly>::new(FullReader::new(d));
        match p.next() {
            Some(Ok(t)) => {
                check(t.start.msecs() == msecs(d, a), "time only: start is the first END time / 90");
                check(t.end.msecs() == msecs(d, b), "time only: end is the second END time / 90");
            }
            _ => never("time only: two END segments give a subtitle"),
        }
    }
    pub fn ends() {
        let d = any_bytes();
        let a = end(d, 0);
        end(d, a);
        one(d, 0, a);
    }
    pub fn skip_first() {
        let d = any_bytes();
        let code = any::<u8>();
        assume(code >= 0x14 && code <= 0x17);
        let a = skipped(d, 0, code);
        let b = end(d, a);
        end(d, b);
        one(d, a, b);
    }
    pub fn skip_between() {
        let d = any_bytes();
        let code = any::<u8>();
        assume(code >= 0x14 && code <= 0x17);
        let b = end(d, 0);
        let c = skipped(d, b, code);
        end(d, c);
        one(d, 0, c);
    }
    /// The second subtitle of a stream.
    pub fn second() {
        let d = any_bytes();
        let b = end(d, 0);
        let c = end(d, b);
        let e = end(d, c);
        end(d, e);
        let mut p = SupParser::<FullReader, DecodeTimeOnly>::new(FullReader::new(d));
        let _ = p.next();
        match p.next() {
            Some(Ok(t)) => {
                check(t.start.msecs() == msecs(d, c), "second subtitle: start is the third END time / 90");
                check(t.end.msecs() == msecs(d, e), "second subtitle: end is the fourth END time / 90");
            }
            _ => never("two more END segments give a second subtitle"),
        }
    }
    /// PDS with one entry, ODS, END, WDS, END.
    pub fn image() {
        let d = any_bytes();
        let a = sized(d, 0, 0x14, 7);
        let b = skipped(d, a, 0x15);
        assume(d[a + 13 + 3] == 0xc0);
        let c = end(d, b);
        let e = skipped(d, c, 0x17);
        end(d, e);
        let mut p = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d));
        match p.next() {
            Some(Ok((t, _))) => {
                check(t.start.msecs() == msecs(d, b), "time and image: start is the first END time / 90");
                check(t.end.msecs() == msecs(d, e), "time and image: end is the second END time / 90");
            }
            Some(Err(_)) => {}
            None => never("time and image: two END segments do not end the stream"),
        }
    }
    /// Both decoders on a complete subtitle whose END segments stand here.
    fn both(d: &'static [u8], a: usize, b: usize) {
        with_image(d, a, b);
        time_only(d, a, b);
    }
    fn with_image(d: &'static [u8], a: usize, b: usize) {
        match SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next() {
            Some(Ok((t, _))) => {
                check(t.start.msecs() == msecs(d, a), "complete, with image: start is the first END time / 90");
                check(t.end.msecs() == msecs(d, b), "complete, with image: end is the second END time / 90");
            }
            _ => never("complete, with image: a subtitle with palette, object and two ENDs is decoded"),
        }
    }
    fn time_only(d: &'static [u8], a: usize, b: usize) {
        match SupParser::<FullReader, DecodeTimeOnly>::new(FullReader::new(d)).next() {
            Some(Ok(t)) => {
                check(t.start.msecs() == msecs(d, a), "complete, time only: start is the first END time / 90");
                check(t.end.msecs() == msecs(d, b), "complete, time only: end is the second END time / 90");
            }
            _ => never("complete, time only: a subtitle with palette, object and two ENDs is decoded"),
        }
    }
    pub fn object_first() {
        let d = any_bytes();
        let a = palette(d, 0, 1);
        let b = object(d, a);
        let c = end(d, b);
        end(d, c);
        both(d, b, c);
    }
    pub fn object_after_end() {
        let d = any_bytes();
        let a = palette(d, 0, 1);
        let b = end(d, a);
        let c = object(d, b);
        end(d, c);
        both(d, a, c);
    }
    pub fn palette_after_end() {
        let d = any_bytes();
        let b = end(d, 0);
        let a = palette(d, b, 1);
        let c = object(d, a);
        end(d, c);
        both(d, 0, c);
    }
    /// PCS, PDS, ODS, END, PCS, END.
    fn sets(d: &[u8]) -> (usize, usize) {
        let b = skipped(d, 0, 0x16);
        let c = palette(d, b, 1);
        let e = object(d, c);
        let f = end(d, e);
        let g = skipped(d, f, 0x16);
        end(d, g);
        (e, g)
    }
    pub fn display_sets() {
        let d = any_bytes();
        let (a, b) = sets(d);
        with_image(d, a, b);
    }
    /// The second subtitle, with image.
    pub fn second_image() {
        let d = any_bytes();
        let a = palette(d, 0, 1);
        let b = object(d, a);
        let c = end(d, b);
        let e = end(d, c);
        let f = palette(d, e, 1);
        let g = object(d, f);
        let h = end(d, g);
        end(d, h);
        let mut p = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d));
        let _ = p.next();
        match p.next() {
            Some(Ok((t, _))) => {
                check(t.start.msecs() == msecs(d, g), "second subtitle with image: start is the third END time / 90");
                check(t.end.msecs() == msecs(d, h), "second subtitle with image: end is the fourth END time / 90");
            }
            _ => never("second subtitle with image is decoded"),
        }
    }
}

pub mod c11 {
    use super::sup::*;
    use super::*;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, SupParser};
    pub fn magic() {
        let d = any_bytes();
        assume(d.len() >= 13);
        assume(d[0] != 0x50 || d[1] != 0x47);
        let r = SupParser::<FullReader, DecodeTimeOnly>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(PgsError::SegmentPGMissing))), "time only: a segment without the magic number is an error");
        let r = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(PgsError::SegmentPGMissing))), "time and image: a segment without the magic number is an error");
    }
    pub fn code() {
        let d = any_bytes();
        assume(d.len() >= 13);
        let c = d[10];
        header(d, 0, c);
        assume(!(c >= 0x14 && c <= 0x17) && c != 0x80);
        match SupParser::<FullReader, DecodeTimeOnly>::new(FullReader::new(d)).next() {
            Some(Err(PgsError::SegmentInvalidTypeCode { value })) => check(value == c, "time only: the error carries the type byte"),
            _ => never("time only: an unknown type byte is an error"),
        }
        match SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next() {
            Some(Err(PgsError::SegmentInvalidTypeCode { value })) => check(value == c, "time and image: the error carries the type byte"),
            _ => never("time and image: an unknown type byte is an error"),
        }
    }
    /// PCS and WDS content is skipped over exactly its declared size.
    pub fn skip() {
        let d = any_bytes();
        let c = any::<u8>();
        assume(c == 0x16 || c == 0x17);
        let a = skipped(d, 0, c);
        assume(d.len() >= a + 13);
        let k = d[a + 10];
        header(d, a, k);
        assume(!(k >= 0x14 && k <= 0x17) && k != 0x80);
        match SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next() {
            Some(Err(PgsError::SegmentInvalidTypeCode { value })) => check(value == k, "the segment after a skipped one starts right behind its content"),
            _ => never("the segment after a skipped one is read"),
        }
    }
    /// Invalid sequence flags of an object definition.
    pub fn flag() {
        let d = any_bytes();
        let a = sized(d, 0, 0x14, 7);
        let b = skipped(d, a, 0x15);
        assume(b >= a + 24);
        let f = d[a + 16];
        assume(f != 0x40 && f != 0x80 && f != 0xc0);
        let r = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(PgsError::ODSParse(_)))), "an unknown sequence flag is an error");
    }
    /// A palette definition is decoded: a size that is not that of whole
    /// entries is an error, and the content is consumed.
    pub fn pds_size() {
        let d = any_bytes();
        let a = skipped(d, 0, 0x14);
        assume((be16(d, 11) + 3) % 5 != 0);
        let r = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(PgsError::PDSParse(_)))), "a palette of incomplete entries is an error");
        let _ = a;
    }
    pub fn no_palette() {
        let d = any_bytes();
        let b = skipped(d, 0, 0x15);
        assume(b >= 24);
        assume(d[16] == 0xc0);
        let _ = end(d, b);
        let r = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(_))), "an object without palette is an error");
    }
    /// Palettes and objects are decoded before and after the first END.
    fn decoded(d: &'static [u8]) {
        let r = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Ok(_))), "palette and object are decoded");
    }
    pub fn both_before_end() {
        let d = any_bytes();
        let a = palette(d, 0, 1);
        let b = object(d, a);
        let c = end(d, b);
        end(d, c);
        decoded(d);
    }
    pub fn object_after_end() {
        let d = any_bytes();
        let a = palette(d, 0, 1);
        let b = end(d, a);
        let c = object(d, b);
        end(d, c);
        decoded(d);
    }
    pub fn both_after_end() {
        let d = any_bytes();
        let b = end(d, 0);
        let a = palette(d, b, 1);
        let c = object(d, a);
        end(d, c);
        decoded(d);
    }
    pub fn between_skipped() {
        let d = any_bytes();
        let a = skipped(d, 0, 0x16);
        let c = palette(d, a, 1);
        let e = skipped(d, c, 0x17);
        let f = object(d, e);
        let h = end(d, f);
        end(d, h);
        decoded(d);
    }
    pub fn no_image() {
        let d = any_bytes();
        let b = end(d, 0);
        end(d, b);
        let r = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next();
        check(matches!(r, Some(Err(PgsError::MissingImage))), "a display set without image is an error");
    }
}

pub mod c12 {
    use super::sup::*;
    use super::*;
    use subtile::image::ImageSize;
    use subtile::pgs::{DecodeTimeImage, SupParser};
    /// One palette entry, one object whose first colour is any byte but 0.
    pub fn fields() {
        let d = any_bytes();
        let a = sized(d, 0, 0x14, 7);
        let b = skipped(d, a, 0x15);
        let o = a + 13;
        assume(b >= o + 12);
        assume(d[o + 3] == 0xc0);
        let c = end(d, b);
        end(d, c);
        let mut p = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d));
        if let Some(Ok((_, img))) = p.next() {
            check(img.width() as usize == be16(d, o + 7), "width is the 16-bit number at 7");
            check(img.height() as usize == be16(d, o + 9), "height is the 16-bit number at 9");
            assume(img.width() > 0 && img.height() > 0);
            let colour = d[o + 11];
            assume(colour != 0);
            match img.iter().next() {
                Some(px) => {
                    if colour == d[15] {
                        check(px.0[0] == d[16], "luminance is the second byte of the entry");
                        check(px.0[1] == d[19], "alpha is the last byte of the entry");
                    } else {
                        check(px.0[0] == 255 && px.0[1] == 0, "a colour without entry is white and transparent");
                    }
                }
                None => never("the first pixel exists"),
            }
        }
    }
    /// What the entries say of a colour; the entries start at `e`.
    fn matches_entry(d: &[u8], e: usize, n: usize, colour: u8, l: u8, a: u8) {
        let mut k = 0;
        while k < n {
            let q = e + 5 * k;
            if colour == d[q] {
                check(l == d[q + 1], "several entries: luminance is the second byte of the entry");
                check(a == d[q + 4], "several entries: alpha is the last byte of the entry");
                return;
            }
            k += 1;
        }
        check(l == 255 && a == 0, "several entries: a colour without entry is white and transparent");
    }
    /// `n` entries with different numbers, an object with three colours.
    fn entries(_: (), n: usize, first: usize) {
        let d = any_bytes();
        let mut i = 0;
        let mut k = 0;
        while k < first {
            i = skipped(d, i, 0x16);
            k += 1;
        }
        let a = palette(d, i, n);
        let o = a + 13;
        let b = object(d, a);
        assume(b >= o + 11 + 3);
        let c = end(d, b);
        end(d, c);
        let e = i + 15;
        let mut k = 0;
        while k < n {
            let mut m = 0;
            while m < k {
                assume(d[e + 5 * m] != d[e + 5 * k]);
                m += 1;
            }
            k += 1;
        }
        let mut p = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d));
        match p.next() {
            Some(Ok((_, img))) => {
                check(img.width() as usize == be16(d, o + 7), "several entries: width is the 16-bit number at 7");
                check(img.height() as usize == be16(d, o + 9), "several entries: height is the 16-bit number at 9");
                assume(img.width() > 2 && img.height() > 0);
                assume(d[o + 11] != 0 && d[o + 12] != 0 && d[o + 13] != 0);
                let mut it = img.iter();
                let p0 = it.next().unwrap();
                matches_entry(d, e, n, d[o + 11], p0.0[0], p0.0[1]);
                let p1 = it.next().unwrap();
                matches_entry(d, e, n, d[o + 12], p1.0[0], p1.0[1]);
                if n < 3 {
                    let p2 = it.next().unwrap();
                    matches_entry(d, e, n, d[o + 13], p2.0[0], p2.0[1]);
                }
            }
            _ => never("several entries: palette and object are decoded"),
        }
    }
    pub fn no_entries() {
        let d = any_bytes();
        let a = palette(d, 0, 0);
        let b = object(d, a);
        let c = end(d, b);
        end(d, c);
        match SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d)).next() {
            Some(Ok((_, img))) => {
                assume(img.width() > 0 && img.height() > 0);
                let p = img.iter().next().unwrap();
                check(p.0[0] == 255 && p.0[1] == 0, "no entries: every colour is white and transparent");
            }
            _ => never("no entries: palette and object are decoded"),
        }
    }
    pub fn entries_1() {
        entries((), 1, 2);
    }
    pub fn entries_2() {
        entries((), 2, 0);
    }
    pub fn entries_3() {
        entries((), 3, 1);
    }
    pub fn entries_4() {
        entries((), 4, 0);
    }
    /// The palette of a whole epoch: 255 or 256 entries, numbered in any
    /// rotation; one colour.
    fn full(_: (), n: usize, at: u8) {
        let d = any_bytes();
        let a = palette(d, 0, n);
        let o = a + 13;
        let b = object(d, a);
        let c = end(d, b);
        end(d, c);
        let mut k = 0;
        while k < n {
            assume(d[15 + 5 * k] as usize == (k + 3) % 256);
            k += 1;
        }
        assume(d[o + 11] == at);
        let mut p = SupParser::<FullReader, DecodeTimeImage>::new(FullReader::new(d));
        match p.next() {
            Some(Ok((_, img))) => {
                assume(img.width() > 0 && img.height() > 0);
                let p0 = img.iter().next().unwrap();
                let q = 15 + 5 * ((at as usize + 253) % 256);
                check(p0.0[0] == d[q + 1], "full palette: luminance is the second byte of the entry");
                check(p0.0[1] == d[q + 4], "full palette: alpha is the last byte of the entry");
            }
            _ => never("full palette: palette and object are decoded"),
        }
    }
    pub fn full_255() {
        full((), 255, 200);
    }
    pub fn full_256() {
        full((), 256, 255);
    }
}

pub mod c13 {
    use super::*;
    use subtile::content::{Area, AreaValues};
    pub fn area() {
        let v = any::<AreaValues>();
        let (x1, y1, x2, y2) = (v.x1, v.y1, v.x2, v.y2);
        match Area::try_from(v) {
            Ok(a) => {
                check(x2 > x1 && y2 > y1, "the second corner is strictly beyond the first");
                check(a.left() == x1, "left is x1");
                check(a.top() == y1, "top is y1");
                check(a.width() as i64 == x2 as i64 - x1 as i64 + 1, "width is x2 - x1 + 1");
                check(a.height() as i64 == y2 as i64 - y1 as i64 + 1, "height is y2 - y1 + 1");
                check(a.size().w as i64 == x2 as i64 - x1 as i64 + 1, "size.w is the width");
                check(a.size().h as i64 == y2 as i64 - y1 as i64 + 1, "size.h is the height");
            }
            Err(_) => {
                check(x2 <= x1 || y2 <= y1 || x2 - x1 == u16::MAX || y2 - y1 == u16::MAX, "only corners without a positive representable size are refused");
            }
        }
    }
}

pub mod c21 {
    use super::*;
    use image::LumaA;
    use subtile::image::{luma_a_to_luma, luma_a_to_luma_convertor};
    fn pair<const A: u8, const L: u8>() {
        let (l, a) = (any::<u8>(), any::<u8>());
        let r = luma_a_to_luma::<_, u8, A, L>(LumaA([l, a]));
        check(r.0[0] == if a >= A && l >= L { 0 } else { 255 }, "const thresholds classify exactly");
        let q = luma_a_to_luma_convertor::<u8, LumaA<u8>>(A, L)(LumaA([l, a]));
        check(q.0[0] == r.0[0], "both variants agree");
        let (l, a) = (any::<u16>(), any::<u16>());
        let r = luma_a_to_luma::<_, u16, A, L>(LumaA([l, a]));
        check(r.0[0] == if a >= A as u16 && l >= L as u16 { 0 } else { 65535 }, "16-bit: const thresholds classify exactly");
    }
    pub fn const_generic() {
        pair::<0, 0>();
        pair::<0, 1>();
        pair::<1, 0>();
        pair::<1, 1>();
        pair::<10, 200>();
        pair::<200, 10>();
        pair::<127, 128>();
        pair::<254, 255>();
        pair::<255, 254>();
        pair::<255, 255>();
        pair::<0, 255>();
        pair::<255, 0>();
    }
    pub fn run_time() {
        let (l, a) = (any::<u8>(), any::<u8>());
        let (tl, ta) = (any::<u8>(), any::<u8>());
        let q = luma_a_to_luma_convertor::<u8, LumaA<u8>>(ta, tl)(LumaA([l, a]));
        check(q.0[0] == if a >= ta && l >= tl { 0 } else { 255 }, "run-time thresholds classify exactly");
        let p = LumaA([l, a]);
        let q = luma_a_to_luma_convertor::<u8, &LumaA<u8>>(ta, tl)(&p);
        check(q.0[0] == if a >= ta && l >= tl { 0 } else { 255 }, "run-time thresholds classify exactly by reference");
        let (l, a) = (any::<u16>(), any::<u16>());
        let (tl, ta) = (any::<u16>(), any::<u16>());
        let q = luma_a_to_luma_convertor::<u16, LumaA<u16>>(ta, tl)(LumaA([l, a]));
        check(q.0[0] == if a >= ta && l >= tl { 0 } else { 65535 }, "16-bit: run-time thresholds classify exactly");
    }
}

pub mod c31 {
    use super::*;
    use subtile::time::{TimePoint, TimeSpan};
    pub fn ints() {
        let m = any::<i64>();
        check(TimePoint::from_msecs(m).msecs() == m, "milliseconds are kept");
        assume(m != i64::MIN);
        check((-TimePoint::from_msecs(m)).msecs() == -m, "negation negates the milliseconds");
        let s = TimeSpan::new(TimePoint::from_msecs(m), TimePoint::from_msecs(any()));
        check(s.start.msecs() == m, "a span keeps its start");
    }
    pub fn to_secs() {
        let m = any::<i64>();
        check(TimePoint::from_msecs(m).to_secs() == m as f64 / 1000.0, "seconds are milliseconds / 1000");
    }
    pub fn from_secs() {
        let s = any::<f64>();
        assume(s > -9.0e15 && s < 9.0e15);
        check(TimePoint::from_secs(s).msecs() == (s * 1000.0) as i64, "milliseconds are seconds * 1000, truncated");
    }
}

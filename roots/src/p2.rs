//! `.sub` files of given shapes.
use crate::model::*;
use crate::sa::*;
use subtile::time::TimeSpan;
use subtile::vobsub::{ErrorMissing, Sub, VobSubError, VobSubIndexedImage};

pub type Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>;

/// Building blocks of a `.sub` file.
pub mod ps {
    use super::*;
    pub fn be16(d: &[u8], i: usize) -> usize {
        d[i] as usize * 256 + d[i + 1] as usize
    }
    /// `n` bits from bit `o` of byte `i` (bit 0 is the highest).
    pub fn bits(d: &[u8], i: usize, o: u32, n: u32) -> u8 {
        (d[i] % (1u16 << (8 - o)) as u8) / (1u8 << (8 - o - n))
    }
    pub fn top(d: &[u8], i: usize, n: u32) -> u8 {
        d[i] / (1u8 << (8 - n))
    }
    /// A Program Stream header without stuffing at `i`.
    pub fn header(d: &[u8], i: usize) -> usize {
        assume(d.len() >= i + 14);
        assume(d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1 && d[i + 3] == 0xba);
        assume(top(d, i + 4, 2) == 1 && bits(d, i + 4, 5, 1) == 1);
        assume(bits(d, i + 6, 5, 1) == 1);
        assume(bits(d, i + 8, 5, 1) == 1);
        assume(d[i + 9] % 2 == 1);
        assume(d[i + 12] % 4 == 3);
        assume(d[i + 13] % 8 == 0);
        i + 14
    }
    /// A PES packet with time stamp at `i`, of the header data length 5.
    /// Returns where its data start and end.
    pub fn pes(d: &[u8], i: usize) -> (usize, usize) {
        assume(d.len() >= i + 6);
        assume(d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1 && d[i + 3] == 0xbd);
        let end = i + 6 + be16(d, i + 4);
        assume(end >= i + 15 && d.len() >= end);
        assume(top(d, i + 6, 2) == 2);
        assume(top(d, i + 7, 2) == 2);
        assume(d[i + 8] == 5);
        assume(top(d, i + 9, 4) == 2);
        assume(d[i + 9] % 2 == 1);
        assume(d[i + 11] % 2 == 1);
        assume(d[i + 13] % 2 == 1);
        (i + 15, end)
    }
    /// The time stamp of the PES packet at `i`.
    pub fn pts(d: &[u8], i: usize) -> i64 {
        let hi = (d[i + 9] % 16) as i64 / 2;
        let mid = be16(d, i + 10) as i64 / 2;
        let lo = be16(d, i + 12) as i64 / 2;
        hi * (1 << 30) + mid * (1 << 15) + lo
    }
    /// One packet at the start of the file whose data is a whole subtitle.
    pub fn whole(d: &[u8]) -> usize {
        let i = header(d, 0);
        let (a, b) = pes(d, i);
        assume(b >= a + 4);
        assume(be16(d, a) == b - a);
        a
    }
    pub fn first() -> Option<Item> {
        let sub = Sub::open("any.sub").ok()?;
        let mut it = sub.subtitles::<TimeSpan>();
        it.next()
    }
}

pub mod c32 {
    use super::ps::*;
    use super::*;
    use subtile::image::ImageArea;
    /// The commands in one order.
    pub fn order1() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = whole(d);
        let c = a + be16(d, a + 2);
        assume(d.len() >= c + 24);
        assume(be16(d, a) >= be16(d, a + 2) + 24);
        assume(be16(d, c + 2) == be16(d, a + 2));
        assume(d[c + 4] == 1);
        assume(d[c + 5] == 3);
        assume(d[c + 8] == 4);
        assume(d[c + 11] == 5);
        assume(d[c + 18] == 6);
        assume(d[c + 23] == 0xff);
        if let Some(Ok((_, img))) = first() {
            let p = img.palette();
            check(p[3] == d[c + 6] / 16, "palette entry 3 is the first nibble");
            check(p[2] == d[c + 6] % 16, "palette entry 2 is the second nibble");
            check(p[1] == d[c + 7] / 16, "palette entry 1 is the third nibble");
            check(p[0] == d[c + 7] % 16, "palette entry 0 is the fourth nibble");
            let p = img.alpha();
            check(p[3] == d[c + 9] / 16, "alpha entry 3 is the first nibble");
            check(p[2] == d[c + 9] % 16, "alpha entry 2 is the second nibble");
            check(p[1] == d[c + 10] / 16, "alpha entry 1 is the third nibble");
            check(p[0] == d[c + 10] % 16, "alpha entry 0 is the fourth nibble");
            let r = img.area();
            let x1 = d[c + 12] as u32 * 16 + d[c + 13] as u32 / 16;
            let x2 = (d[c + 13] % 16) as u32 * 256 + d[c + 14] as u32;
            let y1 = d[c + 15] as u32 * 16 + d[c + 16] as u32 / 16;
            let y2 = (d[c + 16] % 16) as u32 * 256 + d[c + 17] as u32;
            check(r.left() as u32 == x1, "left is the first 12-bit value");
            check(r.left() as u32 + r.width() as u32 - 1 == x2, "right is the second 12-bit value");
            check(r.top() as u32 == y1, "top is the third 12-bit value");
            check(r.top() as u32 + r.height() as u32 - 1 == y2, "bottom is the fourth 12-bit value");
        }
        drop(e);
    }
}

/// A subtitle with a 2 x 2 image: size, control offset 6, one byte per line.
pub mod spu {
    use super::ps::*;
    use super::*;
    pub const START: u8 = 1;
    pub const STOP: u8 = 2;
    pub const PALETTE: u8 = 3;
    pub const ALPHA: u8 = 4;
    pub const AREA: u8 = 5;
    pub const OFFSETS: u8 = 6;
    pub const END: u8 = 0xff;
    /// Data of a subtitle of `n` bytes at `a`.
    pub fn data(d: &[u8], a: usize) -> usize {
        assume(d[a + 2] == 0 && d[a + 3] == 6);
        assume(d[a + 4] == 0x80 && d[a + 5] == 0x80);
        a + 6
    }
    /// A file that is one packet with such a subtitle of `n` bytes.
    pub fn file(d: &[u8], n: u8) -> usize {
        let i = header(d, 0);
        let (a, b) = pes(d, i);
        assume(d[i + 4] == 0 && d[i + 5] == 9 + n);
        assume(d[a] == 0 && d[a + 1] == n);
        data(d, a)
    }
    /// A control sequence at `c` whose successor is at `next` (in the subtitle).
    pub fn sequence(d: &[u8], c: usize, next: u8) -> usize {
        assume(d[c + 2] == 0 && d[c + 3] == next);
        c + 4
    }
    pub fn command(d: &[u8], c: usize, tag: u8) -> usize {
        assume(d[c] == tag);
        if tag == AREA {
            assume(d[c + 1] == 0 && d[c + 2] == 0 && d[c + 3] == 1 && d[c + 4] == 0 && d[c + 5] == 0 && d[c + 6] == 1);
            c + 7
        } else if tag == OFFSETS {
            assume(d[c + 1] == 0 && d[c + 2] == 4 && d[c + 3] == 0 && d[c + 4] == 5);
            c + 5
        } else if tag == PALETTE || tag == ALPHA {
            c + 3
        } else {
            c + 1
        }
    }
    pub fn commands(d: &[u8], mut c: usize, tags: &[u8]) -> usize {
        let mut i = 0;
        while i < tags.len() {
            c = command(d, c, tags[i]);
            i += 1;
        }
        c
    }
    /// 90 times the milliseconds of `pts` and a date.
    pub fn time(d: &[u8], c: usize) -> i64 {
        pts(d, 14) + 900 * be16(d, c) as i64
    }
    /// `ms` is `t90` / 90 but for rounding.
    pub fn near(ms: i64, t90: i64) -> bool {
        ms * 90 <= t90 + 1 && ms * 90 >= t90 - 92
    }
}

pub mod c09 {
    use super::ps::*;
    use super::spu::*;
    use super::*;
    pub fn one_sequence() {
        let d = any_bytes();
        let e = Env::file(d);
        let c = file(d, 6 + 4 + 20);
        let q = sequence(d, c, 6);
        commands(d, q, &[START, PALETTE, ALPHA, AREA, OFFSETS, END]);
        match first() {
            Some(Ok((t, _))) => {
                check(near(t.start.msecs(), time(d, c)), "start is the time stamp plus the date of the start command");
                check(near(t.end.msecs(), time(d, c) + 450_000), "without stop command the end is 5 seconds after the start");
            }
            Some(Err(_)) => never("a complete subtitle is not an error"),
            None => {}
        }
        drop(e);
    }
    pub fn two_sequences() {
        let d = any_bytes();
        let e = Env::file(d);
        let c = file(d, 6 + 4 + 20 + 4 + 2);
        let q = sequence(d, c, 30);
        let s = commands(d, q, &[START, PALETTE, ALPHA, AREA, OFFSETS, END]);
        let q = sequence(d, s, 30);
        commands(d, q, &[STOP, END]);
        match first() {
            Some(Ok((t, _))) => {
                check(near(t.start.msecs(), time(d, c)), "start is the time stamp plus the date of the start command");
                check(near(t.end.msecs(), time(d, s)), "end is the time stamp plus the date of the stop command");
            }
            Some(Err(_)) => never("a complete subtitle is not an error"),
            None => {}
        }
        drop(e);
    }
    /// The start command comes with the second sequence, the stop command
    /// with the third; the first stop command counts.
    pub fn late_start() {
        let d = any_bytes();
        let e = Env::file(d);
        let c = file(d, 6 + 23 + 6 + 6 + 6);
        let q = sequence(d, c, 29);
        let s = commands(d, q, &[PALETTE, ALPHA, AREA, OFFSETS, END]);
        let q = sequence(d, s, 35);
        let t = commands(d, q, &[START, END]);
        let q = sequence(d, t, 41);
        let u = commands(d, q, &[STOP, END]);
        let q = sequence(d, u, 41);
        commands(d, q, &[STOP, END]);
        match first() {
            Some(Ok((x, _))) => {
                check(near(x.start.msecs(), time(d, s)), "start is the date of the sequence with the start command");
                check(near(x.end.msecs(), time(d, t)), "end is the date of the first sequence with a stop command");
            }
            Some(Err(_)) => never("a complete subtitle is not an error"),
            None => {}
        }
        drop(e);
    }
}

pub mod c24 {
    use super::ps::*;
    use super::spu::*;
    use super::*;
    use subtile::image::ImageArea;
    fn missing(d: &'static [u8], n: u8, tags: &[u8]) -> Option<ErrorMissing> {
        let c = file(d, 10 + n);
        let q = sequence(d, c, 6);
        commands(d, q, tags);
        match first() {
            Some(Err(VobSubError::MissingSubtitleParsing(m))) => Some(m),
            Some(Err(VobSubError::Io { .. })) | None => None,
            _ => {
                never("a subtitle without all parts is an error naming the missing one");
                None
            }
        }
    }
    fn is(m: Option<ErrorMissing>, part: u8, what: &'static str) {
        if let Some(m) = m {
            let n = match m {
                ErrorMissing::StartTime => 1,
                ErrorMissing::Area => 2,
                ErrorMissing::Palette => 3,
                ErrorMissing::AlphaPalette => 4,
                ErrorMissing::RleOffset => 5,
                _ => 0,
            };
            check(n == part, what);
        }
    }
    pub fn start() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 19, &[PALETTE, ALPHA, AREA, OFFSETS, END]), 1, "missing start time");
        drop(e);
    }
    pub fn nothing() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 1, &[END]), 1, "nothing given: missing start time");
        drop(e);
    }
    pub fn area() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 13, &[START, PALETTE, ALPHA, OFFSETS, END]), 2, "missing area");
        drop(e);
    }
    pub fn start_only() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 2, &[START, END]), 2, "only a start time: missing area");
        drop(e);
    }
    pub fn palette() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 17, &[START, ALPHA, AREA, OFFSETS, END]), 3, "missing palette");
        drop(e);
    }
    pub fn start_area() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 9, &[START, AREA, END]), 3, "only start and area: missing palette");
        drop(e);
    }
    pub fn alpha() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 17, &[START, PALETTE, AREA, OFFSETS, END]), 4, "missing alpha palette");
        drop(e);
    }
    pub fn no_alpha_no_offsets() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 12, &[START, PALETTE, AREA, END]), 4, "no alpha, no offsets: missing alpha palette");
        drop(e);
    }
    pub fn offsets() {
        let d = any_bytes();
        let e = Env::file(d);
        is(missing(d, 15, &[START, PALETTE, ALPHA, AREA, END]), 5, "missing bitmap offsets");
        drop(e);
    }
    /// Every part but the offsets twice: the first one counts.
    pub fn twice() {
        let d = any_bytes();
        let e = Env::file(d);
        let c = file(d, 6 + 24 + 4 + 15);
        let q = sequence(d, c, 30);
        let s = commands(d, q, &[START, PALETTE, ALPHA, AREA, OFFSETS, END]);
        let q = sequence(d, s, 30);
        let p = commands(d, q, &[START, PALETTE, ALPHA]);
        assume(d[p] == AREA && d[p + 7] == END);
        match first() {
            Some(Ok((t, img))) => {
                check(near(t.start.msecs(), time(d, c)), "the first start time counts");
                check(img.palette()[3] == d[c + 6] / 16 && img.palette()[0] == d[c + 7] % 16, "the first palette counts");
                check(img.alpha()[3] == d[c + 9] / 16 && img.alpha()[0] == d[c + 10] % 16, "the first alpha palette counts");
                let r = img.area();
                check(r.left() == 0 && r.top() == 0 && r.width() == 2 && r.height() == 2, "the first area counts");
            }
            _ => {}
        }
        drop(e);
    }
    /// The same within one control sequence.
    pub fn twice_in_one() {
        let d = any_bytes();
        let e = Env::file(d);
        let c = file(d, 6 + 4 + 34);
        let q = sequence(d, c, 6);
        let p = commands(d, q, &[START, PALETTE, ALPHA, AREA, OFFSETS, PALETTE, ALPHA, START]);
        assume(d[p] == AREA && d[p + 7] == END);
        match first() {
            Some(Ok((_, img))) => {
                check(img.palette()[3] == d[c + 6] / 16 && img.palette()[0] == d[c + 7] % 16, "one sequence: the first palette counts");
                check(img.alpha()[3] == d[c + 9] / 16 && img.alpha()[0] == d[c + 10] % 16, "one sequence: the first alpha palette counts");
                let r = img.area();
                check(r.left() == 0 && r.top() == 0 && r.width() == 2 && r.height() == 2, "one sequence: the first area counts");
            }
            _ => {}
        }
        drop(e);
    }
}

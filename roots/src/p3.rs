//! Packets and bitmaps of given shapes.
use crate::model::*;
use crate::p2::ps::*;
use crate::p2::spu::*;
use crate::p2::*;
use crate::sa::*;
use subtile::vobsub::VobSubError;

/// A PES packet at `i` without time stamp that carries `n` bytes of data.
/// Returns where these start.
pub fn pes_more(d: &[u8], i: usize, n: u8) -> usize {
    assume(d.len() >= i + 10 + n as usize);
    assume(d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1 && d[i + 3] == 0xbd);
    assume(d[i + 4] == 0 && d[i + 5] == 4 + n);
    assume(top(d, i + 6, 2) == 2);
    assume(top(d, i + 7, 2) == 0);
    assume(d[i + 8] == 0);
    i + 10
}
/// A PES packet with time stamp at `i` that carries `n` bytes of data.
pub fn pes_first(d: &[u8], i: usize, n: u8) -> usize {
    let (a, _) = pes(d, i);
    assume(d[i + 4] == 0 && d[i + 5] == 9 + n);
    a
}

pub mod c25 {
    use super::*;
    /// The first `n` of the 30 bytes of a subtitle, in the first packet.
    fn begin(d: &[u8], n: u8) -> usize {
        let a = pes_first(d, header(d, 0), n);
        assume(d[a] == 0 && d[a + 1] == 30);
        if n > 2 {
            assume(d[a + 2] == 0 && d[a + 3] == 6 && d[a + 4] == 0x80 && d[a + 5] == 0x80);
        }
        a
    }
    fn verdict(r: Option<Item>, d: &[u8], p: usize, q: usize, what: &'static str) {
        match r {
            Some(Ok((_, img))) => {
                check(img.palette()[3] == d[p] / 16 && img.palette()[0] == d[p + 1] % 16, what);
                check(img.alpha()[3] == d[q] / 16 && img.alpha()[0] == d[q + 1] % 16, what);
            }
            Some(Err(_)) => never("a complete subtitle in several packets is not an error"),
            None => {}
        }
    }
    /// 8 bytes, then 22 bytes of the same substream.
    pub fn two() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = begin(d, 8);
        let b = pes_more(d, header(d, a + 8), 22);
        assume(d[b - 1] == d[a - 1]);
        assume(d[b] == 0 && d[b + 1] == 6);
        commands(d, b + 2, &[START, PALETTE, ALPHA, AREA, OFFSETS, END]);
        verdict(first(), d, b + 4, b + 7, "the second packet follows the first one");
        drop(e);
    }
    /// Three parts, cut inside a command.
    pub fn three() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = begin(d, 12);
        assume(d[a + 8] == 0 && d[a + 9] == 6 && d[a + 10] == START && d[a + 11] == PALETTE);
        let b = pes_more(d, header(d, a + 12), 3);
        assume(d[b - 1] == d[a - 1]);
        assume(d[b + 2] == ALPHA);
        let c = pes_more(d, header(d, b + 3), 15);
        assume(d[c - 1] == d[a - 1]);
        commands(d, c + 2, &[AREA, OFFSETS, END]);
        verdict(first(), d, b, c, "three packets in their order");
        drop(e);
    }
    /// A packet of another substream between the parts.
    pub fn other_stream() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = begin(d, 8);
        let o = pes_more(d, header(d, a + 8), 22);
        assume(d[o - 1] != d[a - 1]);
        let b = pes_more(d, header(d, o + 22), 22);
        assume(d[b - 1] == d[a - 1]);
        assume(d[b] == 0 && d[b + 1] == 6);
        commands(d, b + 2, &[START, PALETTE, ALPHA, AREA, OFFSETS, END]);
        verdict(first(), d, b + 4, b + 7, "a packet of another substream is skipped");
        drop(e);
    }
    /// A packet with a time stamp of its own may continue a subtitle; a first
    /// packet may hold nothing but the size.
    pub fn size_only() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = begin(d, 2);
        let b = pes_first(d, header(d, a + 2), 28);
        assume(d[b - 1] == d[a - 1]);
        assume(d[b] == 0 && d[b + 1] == 6 && d[b + 2] == 0x80 && d[b + 3] == 0x80);
        assume(d[b + 6] == 0 && d[b + 7] == 6);
        commands(d, b + 8, &[START, PALETTE, ALPHA, AREA, OFFSETS, END]);
        verdict(first(), d, b + 10, b + 13, "the second packet follows a first one holding only the size");
        drop(e);
    }
    /// One packet with 4 bytes too many: control data may not start there.
    pub fn cut_one() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = pes_first(d, header(d, 0), 12);
        assume(d[a] == 0 && d[a + 1] == 8);
        assume(d[a + 2] == 0 && d[a + 3] == 8);
        cut(8);
        drop(e);
    }
    /// A single byte too many.
    pub fn cut_single() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = pes_first(d, header(d, 0), 9);
        assume(d[a] == 0 && d[a + 1] == 8);
        assume(d[a + 2] == 0 && d[a + 3] == 8);
        cut(8);
        drop(e);
    }
    /// The same in two packets.
    pub fn cut_two() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = pes_first(d, header(d, 0), 5);
        assume(d[a] == 0 && d[a + 1] == 8);
        assume(d[a + 2] == 0 && d[a + 3] == 8);
        let b = pes_more(d, header(d, a + 5), 12);
        assume(d[b - 1] == d[a - 1]);
        cut(8);
        drop(e);
    }
    fn cut(size: usize) {
        match first() {
            Some(Err(VobSubError::ControlOffsetBiggerThanPacket { offset, packet })) => {
                check(offset == size && packet == size, "the data are cut to the declared size");
            }
            Some(Ok(_)) => never("nothing behind the declared size is read"),
            Some(Err(VobSubError::Io { .. })) => {}
            Some(Err(_)) => never("data behind the declared size do not matter"),
            None => {}
        }
    }
    pub fn no_time_stamp() {
        let d = any_bytes();
        let e = Env::file(d);
        pes_more(d, header(d, 0), 8);
        match first() {
            Some(Err(VobSubError::MissingTimingForSubtitle)) | None => {}
            _ => never("a first packet without time stamp is an error"),
        }
        drop(e);
    }
    pub fn no_size() {
        let d = any_bytes();
        let e = Env::file(d);
        let n = any::<u8>();
        assume(n < 2);
        pes_first(d, header(d, 0), n);
        match first() {
            Some(Err(VobSubError::PacketTooShort)) | None => {}
            _ => never("a first packet shorter than the size field is an error"),
        }
        drop(e);
    }
    /// The parts of two subtitles: the next subtitle starts after the last
    /// packet of the first one.
    pub fn second() {
        let d = any_bytes();
        let e = Env::file(d);
        let a = pes_first(d, header(d, 0), 2);
        assume(d[a] == 0 && d[a + 1] == 4);
        let b = pes_more(d, header(d, a + 2), 2);
        assume(d[b - 1] == d[a - 1]);
        assume(d[b] == 0 && d[b + 1] == 77);
        let c = pes_first(d, header(d, b + 2), 4);
        assume(d[c] == 0 && d[c + 1] == 4 && d[c + 2] == 0 && d[c + 3] == 99);
        if let Ok(sub) = subtile::vobsub::Sub::open("any.sub") {
            let mut it = sub.subtitles::<subtile::time::TimeSpan>();
            match it.next() {
                Some(Err(VobSubError::ControlOffsetBiggerThanPacket { offset, packet })) => check(offset == 77 && packet == 4, "the first subtitle holds both packets"),
                _ => never("the first subtitle is complete"),
            }
            match it.next() {
                Some(Err(VobSubError::ControlOffsetBiggerThanPacket { offset, packet })) => check(offset == 99 && packet == 4, "the second subtitle is the next packet"),
                _ => never("the second subtitle is complete"),
            }
        }
        drop(e);
    }
}

/// A subtitle in one packet with `n` bytes of bitmap and a `w` x `h` area.
pub fn bitmap(d: &[u8], n: u8, w: u16, h: u16, odd: u8) -> usize {
    let a = pes_first(d, header(d, 0), 28 + n);
    assume(d[a] == 0 && d[a + 1] == 28 + n);
    let c = a + 4 + n as usize;
    assume(d[a + 2] == 0 && d[a + 3] == 4 + n);
    assume(d[c + 2] == 0 && d[c + 3] == 4 + n);
    assume(d[c + 4] == START && d[c + 5] == PALETTE && d[c + 8] == ALPHA && d[c + 11] == AREA);
    let (x, y) = (w - 1, h - 1);
    assume(d[c + 12] == 0 && d[c + 13] == (x >> 8) as u8 && d[c + 14] == (x % 256) as u8);
    assume(d[c + 15] == 0 && d[c + 16] == (y >> 8) as u8 && d[c + 17] == (y % 256) as u8);
    assume(d[c + 18] == OFFSETS && d[c + 19] == 0 && d[c + 20] == 4 && d[c + 21] == 0 && d[c + 22] == 4 + odd);
    assume(d[c + 23] == END);
    a + 4
}

/// Bitmaps that end inside of a line.
pub mod c08 {
    use super::*;
    fn refused(what: &'static str) {
        match first() {
            Some(Err(VobSubError::Io { .. })) | None => {}
            Some(Err(_)) => {}
            Some(Ok(_)) => never(what),
        }
    }
    fn is(x: u8, v: u8) {
        assume(x / 64 == v / 64 && x / 16 % 4 == v / 16 % 4 && x / 4 % 4 == v / 4 % 4 && x % 4 == v % 4);
    }
    /// The bytes `codes` are all a bitmap of 8 pixels per line can use: the
    /// last two of them are the first two of the control sequence.
    fn at_end(d: &[u8], codes: &[u8], h: u16) {
        let b = bitmap(d, codes.len() as u8 - 2, 8, h, 0);
        let mut i = 0;
        while i < codes.len() {
            is(d[b + i], codes[i]);
            i += 1;
        }
    }
    /// 4 of 8 pixels.
    pub fn short_line() {
        let d = any_bytes();
        let e = Env::file(d);
        at_end(d, &[0x55, 0x55], 2);
        refused("a line with too few pixels is an error");
        drop(e);
    }
    /// The first line is complete, the second one has no data.
    pub fn no_line() {
        let d = any_bytes();
        let e = Env::file(d);
        at_end(d, &[0xdd, 0x90], 3);
        refused("a missing line is an error");
        drop(e);
    }
    /// The last code is cut in its middle.
    pub fn short_code() {
        let d = any_bytes();
        let e = Env::file(d);
        at_end(d, &[0xdd, 0x00], 2);
        refused("half a code is an error");
        drop(e);
    }
    /// 9 pixels in a line of 8.
    pub fn long_line() {
        let d = any_bytes();
        let e = Env::file(d);
        at_end(d, &[0xdd, 0xd0], 2);
        refused("a line with too many pixels is an error");
        drop(e);
    }
}

pub mod c27 {
    use super::*;
    /// The pixels, if the file can be read.
    fn pixels(_e: &Env) -> Option<Vec<u8>> {
        match first() {
            Some(Ok((_, img))) => Some(img.raw_image().to_vec()),
            Some(Err(_)) => {
                never("a well formed bitmap is decoded");
                None
            }
            None => None,
        }
    }
    /// A byte, digit by digit.
    fn is(x: u8, v: u8) {
        assume(x / 64 == v / 64 && x / 16 % 4 == v / 16 % 4 && x / 4 % 4 == v / 4 % 4 && x % 4 == v % 4);
    }
    /// All digits but the last one.
    fn starts(x: u8, v: u8) {
        assume(x / 64 == v / 16 && x / 16 % 4 == v / 4 % 4 && x / 4 % 4 == v % 4);
    }
    fn line(p: &[u8], from: usize, n: usize, v: u8, what: &'static str) {
        check(p[from] == v && p[from + n / 2] == v && p[from + n - 1] == v, what);
    }
    /// Lines of one code each: 2 pixels in one nibble, the other is padding.
    pub fn interlaced() {
        let d = any_bytes();
        let e = Env::file(d);
        let b = bitmap(d, 5, 2, 5, 3);
        let mut i = 0;
        while i < 5 {
            assume(d[b + i] / 64 == 2);
            i += 1;
        }
        if let Some(p) = pixels(&e) {
            check(p.len() == 10, "5 lines of 2 pixels");
            line(&p, 0, 2, d[b] / 16 % 4, "line 0 is the first of the even field");
            line(&p, 2, 2, d[b + 3] / 16 % 4, "line 1 is the first of the odd field");
            line(&p, 4, 2, d[b + 1] / 16 % 4, "line 2 is the second of the even field");
            line(&p, 6, 2, d[b + 4] / 16 % 4, "line 3 is the second of the odd field");
            line(&p, 8, 2, d[b + 2] / 16 % 4, "line 4 is the third of the even field");
        }
        drop(e);
    }
    /// 1-nibble codes of 1, 2 and 3 pixels; an odd number of nibbles.
    pub fn nibbles() {
        let d = any_bytes();
        let e = Env::file(d);
        let b = bitmap(d, 6, 6, 3, 4);
        // line 0: 1, 2, 3 pixels in 3 nibbles, and padding
        assume(d[b] / 64 == 1 && d[b] / 4 % 4 == 2 && d[b + 1] / 64 == 3);
        // line 2: 3, 3 pixels in 2 nibbles, no padding
        assume(d[b + 2] / 64 == 3 && d[b + 2] / 4 % 4 == 3);
        // line 1: 3, 1, 2 pixels
        assume(d[b + 4] / 64 == 3 && d[b + 4] / 4 % 4 == 1 && d[b + 5] / 64 == 2);
        if let Some(p) = pixels(&e) {
            line(&p, 0, 1, d[b] / 16 % 4, "first run of line 0");
            line(&p, 1, 2, d[b] % 4, "second run of line 0");
            line(&p, 3, 3, d[b + 1] / 16 % 4, "third run of line 0");
            line(&p, 6, 3, d[b + 4] / 16 % 4, "first run of line 1");
            line(&p, 9, 1, d[b + 4] % 4, "second run of line 1");
            line(&p, 10, 2, d[b + 5] / 16 % 4, "third run of line 1");
            line(&p, 12, 3, d[b + 2] / 16 % 4, "first run of line 2, in the next byte");
            line(&p, 15, 3, d[b + 2] % 4, "second run of line 2");
        }
        drop(e);
    }
    /// A line of a code of 2 nibbles with `n` pixels and one of 1 pixel.
    fn two(d: &'static [u8], e: &Env, n: u8) {
        let b = bitmap(d, 4, n as u16 + 1, 2, 2);
        starts(d[b], n);
        assume(d[b + 1] / 64 == 1);
        // the same with the short code first
        assume(d[b + 2] / 64 == 1 && d[b + 2] / 4 % 4 == n / 16 && d[b + 2] % 4 == n / 4 % 4 && d[b + 3] / 64 == n % 4);
        if let Some(p) = pixels(e) {
            let n = n as usize;
            line(&p, 0, n, d[b] % 4, "2-nibble code");
            line(&p, n, 1, d[b + 1] / 16 % 4, "1-nibble code after it");
            line(&p, n + 1, 1, d[b + 2] / 16 % 4, "1-nibble code before it");
            line(&p, n + 2, n, d[b + 3] / 16 % 4, "2-nibble code at half a byte");
        }
    }
    pub fn two_4() {
        let d = any_bytes();
        let e = Env::file(d);
        two(d, &e, 4);
        drop(e);
    }
    pub fn two_9() {
        let d = any_bytes();
        let e = Env::file(d);
        two(d, &e, 9);
        drop(e);
    }
    pub fn two_15() {
        let d = any_bytes();
        let e = Env::file(d);
        two(d, &e, 15);
        drop(e);
    }
    fn three(d: &'static [u8], e: &Env, n: u8) {
        let b = bitmap(d, 4, n as u16 + 1, 2, 2);
        is(d[b], n / 4);
        assume(d[b + 1] / 64 == n % 4);
        assume(d[b + 1] / 4 % 4 == 1);
        assume(d[b + 2] / 64 == 1 && d[b + 2] % 16 == 0);
        starts(d[b + 3], n);
        if let Some(p) = pixels(e) {
            let n = n as usize;
            line(&p, 0, n, d[b + 1] / 16 % 4, "3-nibble code");
            line(&p, n, 1, d[b + 1] % 4, "1-nibble code after it");
            line(&p, n + 1, 1, d[b + 2] / 16 % 4, "1-nibble code before it");
            line(&p, n + 2, n, d[b + 3] % 4, "3-nibble code at half a byte");
        }
    }
    pub fn three_16() {
        let d = any_bytes();
        let e = Env::file(d);
        three(d, &e, 16);
        drop(e);
    }
    pub fn three_63() {
        let d = any_bytes();
        let e = Env::file(d);
        three(d, &e, 63);
        drop(e);
    }
    fn four(d: &'static [u8], e: &Env, n: u8) {
        let b = bitmap(d, 6, n as u16 + 1, 2, 3);
        is(d[b], n / 64);
        starts(d[b + 1], n % 64);
        assume(d[b + 2] / 64 == 1);
        assume(d[b + 3] / 64 == 1 && d[b + 3] % 16 == 0 && d[b + 5] / 64 == n % 4);
        is(d[b + 4], n / 4);
        if let Some(p) = pixels(e) {
            let n = n as usize;
            line(&p, 0, n, d[b + 1] % 4, "4-nibble code");
            line(&p, n, 1, d[b + 2] / 16 % 4, "1-nibble code after it");
            line(&p, n + 1, 1, d[b + 3] / 16 % 4, "1-nibble code before it");
            line(&p, n + 2, n, d[b + 5] / 16 % 4, "4-nibble code at half a byte");
        }
    }
    pub fn four_64() {
        let d = any_bytes();
        let e = Env::file(d);
        four(d, &e, 64);
        drop(e);
    }
    pub fn four_255() {
        let d = any_bytes();
        let e = Env::file(d);
        four(d, &e, 255);
        drop(e);
    }
    /// A count of zero fills the line.
    pub fn fill() {
        let d = any_bytes();
        let e = Env::file(d);
        let b = bitmap(d, 7, 9, 3, 4);
        is(d[b], 0);
        starts(d[b + 1], 0);
        is(d[b + 2], 0);
        starts(d[b + 3], 0);
        assume(d[b + 4] / 64 == 3 && d[b + 4] % 16 == 0 && d[b + 6] / 64 == 0);
        is(d[b + 5], 0);
        if let Some(p) = pixels(&e) {
            line(&p, 0, 9, d[b + 1] % 4, "a zero count fills the line");
            line(&p, 9, 3, d[b + 4] / 16 % 4, "a run before a zero count");
            line(&p, 12, 6, d[b + 6] / 16 % 4, "a zero count fills the rest of the line");
            line(&p, 18, 9, d[b + 3] % 4, "a zero count fills the next line");
        }
        drop(e);
    }
}

//! Contracts of library functions, written as programs: the analyser enters
//! these instead of the functions named at `REDIRECT` in sa/src/models.rs.
use crate::sa::*;
use image::{ImageBuffer, Pixel};
use std::fs::File;
use std::fmt::{self, Write as _};
use std::io;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use subtile::content::Area;
use subtile::vobsub::VobSubIndexedImage;

/// A place for a value of any type.
pub struct Slot(u64);
#[inline(never)]
pub fn put<T>(_s: &mut Slot, _v: T) {}
#[inline(never)]
pub fn got<T>(_s: &Slot) -> T {
    unimplemented!()
}

/// What a root knows about, and learns from, the world around the library.
/// It is a local variable of the root.
pub struct Env {
    /// Content of the file that is opened, if not any.
    pub content: Option<&'static [u8]>,
    /// A pixel position to look at in the image that is made.
    pub at: (u32, u32),
    pub pixel: Slot,
    pub seen: bool,
    /// Size of the image that is made.
    pub size: (u32, u32),
    /// No operation of the environment fails.
    pub calm: bool,
    /// Where the open file is read next.
    pub pos: u64,
    /// How much is left in a file of any content, if it matters.
    pub left: Option<usize>,
    /// Only this operation of a reader fails (1 read, 2 fill, 3 seek; 0 all).
    pub only: u8,
    /// The kind of all failures, if the root cares.
    pub failure: Option<io::ErrorKind>,
    /// The folder images go to exists.
    pub dir: bool,
    /// Images saved or tried to, by their widths, and where.
    pub saved: Vec<(u32, PathBuf)>,
    /// The folder that was to be created.
    pub created: Vec<PathBuf>,
    /// Any number of images is saved to this folder; so many have been.
    pub folder: Option<&'static str>,
    pub next: usize,
}
impl Env {
    pub fn new() -> Self {
        Env { content: None, at: (0, 0), pixel: Slot(0), seen: false, size: (0, 0), calm: false, pos: 0, left: None, only: 0, failure: None, dir: false, saved: vec![], created: vec![], folder: None, next: 0 }
    }
    pub fn file(d: &'static [u8]) -> Self {
        Env { content: Some(d), ..Env::new() }
    }
    /// An operation of the environment has failed.
    pub fn failed(&self) -> bool {
        has_failed()
    }
    pub fn pixel<T>(&self) -> T {
        got(&self.pixel)
    }
}
#[inline(never)]
fn mark_failed() {}
#[inline(never)]
fn has_failed() -> bool {
    unimplemented!()
}
/// The `Env` of the root, if it has one.
#[inline(never)]
pub fn env() -> Option<&'static mut Env> {
    unimplemented!()
}
fn content() -> &'static [u8] {
    match env() {
        Some(Env { content: Some(d), .. }) => *d,
        _ => any_bytes(),
    }
}
/// May the next operation fail?
pub fn fails() -> bool {
    match env() {
        Some(Env { calm: true, .. }) => false,
        _ => any(),
    }
}
/// An error that is no failure of the environment, or, if the root looks for
/// failures of one kind, one of them.
pub fn own_error(k: io::ErrorKind) -> io::Error {
    match env() {
        Some(Env { failure: Some(k), .. }) => {
            mark_failed();
            io::Error::from(*k)
        }
        _ => io::Error::from(k),
    }
}
/// May this operation of a reader fail?
pub fn fails_at(op: u8) -> bool {
    match env() {
        Some(Env { only, .. }) if *only != 0 && *only != op => false,
        _ => fails(),
    }
}
pub fn fail<T>() -> io::Result<T> {
    mark_failed();
    if let Some(Env { failure: Some(k), .. }) = env() {
        return Err(io::Error::from(*k));
    }
    Err(any_failure())
}

pub fn fs_read<P>(_p: P) -> io::Result<Vec<u8>> {
    if fails() {
        return fail();
    }
    Ok(content().to_vec())
}

pub fn file_open<P>(_p: P) -> io::Result<File> {
    if fails() {
        return fail();
    }
    if let Some(e) = env() {
        e.pos = 0;
    }
    Ok(any::<File>())
}
/// What follows in the open file.
fn rest() -> &'static [u8] {
    match env() {
        Some(Env { content: Some(d), pos, .. }) => {
            if *pos >= d.len() as u64 { &[] } else { &d[*pos as usize..] }
        }
        Some(Env { left: Some(n), .. }) => {
            let d = any_bytes();
            assume(d.len() <= *n);
            d
        }
        _ => any_bytes(),
    }
}
fn advance(n: usize) {
    if let Some(e) = env() {
        e.pos += n as u64;
        if let Some(l) = &mut e.left {
            *l -= n;
        }
    }
}
pub fn file_read(_f: &mut File, out: &mut [u8]) -> io::Result<usize> {
    if fails() {
        return fail();
    }
    let r = rest();
    let n = any::<usize>();
    assume(n <= r.len() && n <= out.len());
    assume(n > 0 || r.len() == 0 || out.len() == 0);
    out[..n].copy_from_slice(&r[..n]);
    advance(n);
    Ok(n)
}
pub fn file_read_exact(_f: &mut File, out: &mut [u8]) -> io::Result<()> {
    if fails() {
        return fail();
    }
    let r = rest();
    if r.len() < out.len() {
        advance(r.len());
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
    }
    out.copy_from_slice(&r[..out.len()]);
    advance(out.len());
    Ok(())
}

// ------------------------------------------------------------ folders

/// `PathBuf::push` on Unix.
pub fn path_push(p: &mut PathBuf, q: &Path) {
    let b = q.as_os_str().as_encoded_bytes();
    let n = p.as_os_str().as_encoded_bytes().len();
    let s = p.as_mut_os_string();
    if b.len() > 0 && b[0] == b'/' {
        s.clear();
    } else if n > 0 && s.as_encoded_bytes()[n - 1] != b'/' {
        s.push("/");
    }
    s.push(q.as_os_str());
}
pub fn is_dir(_p: &Path) -> bool {
    match env() {
        Some(e) => e.dir,
        None => any(),
    }
}
/// `[u8]::eq_ignore_ascii_case`
pub fn same_ignoring_case(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        let (x, y) = (a[i], b[i]);
        let x = if x >= b'A' && x <= b'Z' { x + 32 } else { x };
        let y = if y >= b'A' && y <= b'Z' { y + 32 } else { y };
        if x != y {
            return false;
        }
        i += 1;
    }
    true
}
/// Whether a path exists is not known.
pub fn exists(_p: &Path) -> bool {
    any()
}
pub fn exists_at<P: AsRef<Path>>(_p: P) -> io::Result<bool> {
    Ok(any())
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if let Some(e) = env() {
        e.created.push(p.as_ref().to_path_buf());
    }
    if fails() {
        return fail();
    }
    if let Some(e) = env() {
        e.dir = true;
    }
    Ok(())
}
/// The folder above it may be missing.
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if fails() {
        return Err(io::Error::from(io::ErrorKind::NotFound));
    }
    create_dir_all(p)
}
/// Where an image is saved.
pub fn place(folder: &str, i: usize) -> PathBuf {
    let mut s = String::new();
    put_digits(&mut s, i as u64, 6);
    s.push_str(".png");
    PathBuf::from(folder).join(s)
}
pub fn save<P, C, Q>(i: &ImageBuffer<P, C>, path: Q) -> image::ImageResult<()>
where
    P: Pixel,
    C: Deref<Target = [P::Subpixel]>,
    Q: AsRef<Path>,
{
    if let Some(e) = env() {
        check(e.dir, "images are saved when their folder exists");
        check(!e.failed(), "nothing is done after a failure");
        match e.folder {
            Some(folder) => {
                check(i.width() as usize == e.next + 1, "images are saved in order");
                assume(e.next < 1_000_000);
                let to = place(folder, e.next);
                check(same_text(path.as_ref().as_os_str().as_encoded_bytes(), to.as_os_str().as_encoded_bytes()), "the file of an image");
                e.next += 1;
            }
            None => e.saved.push((i.width(), path.as_ref().to_path_buf())),
        }
    }
    if fails() {
        return Err(image::ImageError::IoError(match fail::<()>() {
            Err(e) => e,
            Ok(()) => any_failure(),
        }));
    }
    Ok(())
}
pub fn save_with_format<P, C, Q>(i: &ImageBuffer<P, C>, path: Q, format: image::ImageFormat) -> image::ImageResult<()>
where
    P: Pixel,
    C: Deref<Target = [P::Subpixel]>,
    Q: AsRef<Path>,
{
    if format != image::ImageFormat::Png {
        unknown("image format");
    }
    save(i, path)
}

// ------------------------------------------------------------ lines

/// `BufRead::read_line` of the open file.
pub fn read_line<R: ?Sized>(_r: &mut R, out: &mut String) -> io::Result<usize> {
    if fails() {
        return fail();
    }
    let r = rest();
    let n = match env() {
        Some(Env { content: Some(_), .. }) => {
            let mut n = 0;
            while n < r.len() && r[n] != b'\n' {
                n += 1;
            }
            if n < r.len() { n + 1 } else { n }
        }
        _ => {
            if any::<bool>() {
                // not UTF-8
                return fail();
            }
            r.len()
        }
    };
    out.push_str(unsafe { std::str::from_utf8_unchecked(&r[..n]) });
    advance(n);
    Ok(n)
}
fn space(b: u8) -> bool {
    if b >= 128 {
        unknown("characters above ASCII");
    }
    b == b' ' || (b >= 9 && b <= 13)
}
fn known_content(_: ()) -> bool {
    matches!(env(), Some(Env { content: Some(_), .. }))
}
pub fn trim_end(s: &str) -> &str {
    let b = s.as_bytes();
    let mut n = b.len();
    if known_content(()) {
        while n > 0 && space(b[n - 1]) {
            n -= 1;
        }
    } else {
        n = any();
        assume(n <= b.len());
    }
    unsafe { std::str::from_utf8_unchecked(&b[..n]) }
}
pub fn trim_start(s: &str) -> &str {
    let b = s.as_bytes();
    let mut n = 0;
    if known_content(()) {
        while n < b.len() && space(b[n]) {
            n += 1;
        }
    } else {
        n = any();
        assume(n <= b.len());
    }
    unsafe { std::str::from_utf8_unchecked(&b[n..]) }
}
pub fn trim(s: &str) -> &str {
    trim_start(trim_end(s))
}

/// No call of the closure depends on earlier ones.
#[inline(never)]
fn same_each_time<F>(_f: &F) {}

/// `ImageBuffer::from_fn`: every pixel is the value of the function at its
/// place; one arbitrary place stands for all of them.
pub fn from_fn<P: Pixel, F: FnMut(u32, u32) -> P>(w: u32, h: u32, mut f: F) -> ImageBuffer<P, Vec<P::Subpixel>> {
    same_each_time(&f);
    let (x, y) = match env() {
        Some(e) => {
            e.size = (w, h);
            e.at
        }
        None => (any(), any()),
    };
    if x < w && y < h {
        let p = f(x, y);
        if let Some(e) = env() {
            put(&mut e.pixel, p);
            e.seen = true;
        }
    }
    image_of(w, h)
}
fn image_of<P: Pixel>(w: u32, h: u32) -> ImageBuffer<P, Vec<P::Subpixel>> {
    let v: Vec<P::Subpixel> = any();
    let i = ImageBuffer::from_raw(w, h, v);
    assume(i.is_some());
    i.unwrap()
}

/// Where an indexed image is made: what holds of all of them.
pub fn vobsub_image(area: Area, palette: [u8; 4], alpha: [u8; 4], raw: Vec<u8>) -> VobSubIndexedImage {
    check(raw.len() == area.width() as usize * area.height() as usize, "one pixel for every point of the area");
    let i = any::<usize>();
    if i < raw.len() {
        check(raw[i] < 4, "pixels are below 4");
    }
    check(palette[0] < 16 && palette[1] < 16 && palette[2] < 16 && palette[3] < 16, "palette entries are below 16");
    check(alpha[0] < 16 && alpha[1] < 16 && alpha[2] < 16 && alpha[3] < 16, "alpha entries are below 16");
    VobSubIndexedImage::new(area, palette, alpha, raw)
}

// ------------------------------------------------------------ texts

/// The decimal digits of a number.
#[inline(never)]
fn decimal(_v: u64) -> &'static str {
    unimplemented!()
}
/// The same bytes in the same order.
#[inline(never)]
pub fn same_text(_a: &[u8], _b: &[u8]) -> bool {
    unimplemented!()
}
fn digit(v: u64) -> u8 {
    b'0' + (v % 10) as u8
}
fn bytes(f: &mut fmt::Formatter<'_>, b: &[u8]) -> fmt::Result {
    f.write_str(unsafe { std::str::from_utf8_unchecked(b) })
}
/// All digits of a number without leading zeros, at least `min` of them.
fn digits(f: &mut fmt::Formatter<'_>, v: u64, min: usize) -> fmt::Result {
    if min <= 1 && v < 10 {
        return bytes(f, &[digit(v)]);
    }
    if min <= 2 && v < 100 {
        return bytes(f, &[digit(v / 10), digit(v)]);
    }
    if min <= 3 && v < 1000 {
        return bytes(f, &[digit(v / 100), digit(v / 10), digit(v)]);
    }
    if min == 4 && v < 10000 {
        return bytes(f, &[digit(v / 1000), digit(v / 100), digit(v / 10), digit(v)]);
    }
    if min == 5 && v < 100000 {
        return bytes(f, &[digit(v / 10000), digit(v / 1000), digit(v / 100), digit(v / 10), digit(v)]);
    }
    if min == 6 && v < 1000000 {
        return bytes(f, &[digit(v / 100000), digit(v / 10000), digit(v / 1000), digit(v / 100), digit(v / 10), digit(v)]);
    }
    if min == 7 && v < 10000000 {
        return bytes(f, &[digit(v / 1000000), digit(v / 100000), digit(v / 10000), digit(v / 1000), digit(v / 100), digit(v / 10), digit(v)]);
    }
    if min > 7 {
        unknown("a number with so many digits");
    }
    f.write_str(decimal(v))
}
/// The expected text of a number of at least `min` digits.
pub fn put_digits(out: &mut String, v: u64, min: usize) {
    use std::fmt::Write;
    let _ = out.write_fmt(format_args!("{}", Digits(v, min)));
}
struct Digits(u64, usize);
impl fmt::Display for Digits {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        digits(f, self.0, self.1)
    }
}
/// How integers are displayed.
fn number(f: &mut fmt::Formatter<'_>, negative: bool, v: u64) -> fmt::Result {
    let w = f.width().unwrap_or(0);
    if f.precision().is_some() || f.alternate() {
        unknown("formatting options");
    }
    let sign = if negative { "-" } else if f.sign_plus() { "+" } else { "" };
    if f.sign_aware_zero_pad() {
        f.write_str(sign)?;
        return digits(f, v, w.saturating_sub(sign.len()));
    }
    if w > 1 {
        let mut n = sign.len() + 1;
        let mut p = 10;
        while n < w && v >= p {
            if n > 6 {
                unknown("a number with so many digits");
            }
            n += 1;
            p *= 10;
        }
        if n < w {
            let (fill, align) = (f.fill(), f.align());
            let before = match align {
                Some(fmt::Alignment::Left) => 0,
                Some(fmt::Alignment::Center) => (w - n) / 2,
                _ => w - n,
            };
            let mut i = 0;
            while i < before {
                f.write_char(fill)?;
                i += 1;
            }
            f.write_str(sign)?;
            digits(f, v, 0)?;
            while i < w - n {
                f.write_char(fill)?;
                i += 1;
            }
            return Ok(());
        }
    }
    f.write_str(sign)?;
    digits(f, v, 0)
}
macro_rules! numbers {
    ($($u:ident $i:ident $us:ident $is:ident $ut:ty, $it:ty;)*) => { $(
        pub fn $u(x: &$ut, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            number(f, false, *x as u64)
        }
        pub fn $i(x: &$it, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if *x < 0 { number(f, true, (-(*x as i128)) as u64) } else { number(f, false, *x as u64) }
        }
        pub fn $us(x: &$ut) -> String {
            let mut s = String::new();
            let _ = s.write_fmt(format_args!("{x}"));
            s
        }
        pub fn $is(x: &$it) -> String {
            let mut s = String::new();
            let _ = s.write_fmt(format_args!("{x}"));
            s
        }
    )* };
}
numbers! {
    fmt_u8 fmt_i8 str_u8 str_i8 u8, i8;
    fmt_u16 fmt_i16 str_u16 str_i16 u16, i16;
    fmt_u32 fmt_i32 str_u32 str_i32 u32, i32;
    fmt_u64 fmt_i64 str_u64 str_i64 u64, i64;
    fmt_usize fmt_isize str_usize str_isize usize, isize;
}

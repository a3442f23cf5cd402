//! Files, and what becomes of failures.
use crate::model::*;
use crate::sa::*;
use subtile::vobsub::{is_idx_file, is_sub_file, VobSubError};

pub mod c23 {
    use super::*;
    const IDX: &[u8] = b"# VobSub index file";
    const SUB: &[u8] = &[0, 0, 1, 0xba];
    fn with_magic(d: &[u8], magic: &[u8]) {
        assume(d.len() >= magic.len());
        let mut i = 0;
        while i < magic.len() {
            assume(d[i] == magic[i]);
            i += 1;
        }
    }
    fn yes(r: Result<bool, VobSubError>, e: &Env) {
        match r {
            Ok(b) => {
                check(!e.failed(), "a failure is reported");
                check(b, "a file with the magic bytes is recognised");
            }
            Err(_) => check(e.failed(), "a file with the magic bytes is not an error"),
        }
    }
    fn no(r: Result<bool, VobSubError>, e: &Env) {
        match r {
            Ok(b) => {
                check(!e.failed(), "a failure is reported");
                check(!b, "a file without the magic bytes is not recognised");
            }
            Err(_) => check(e.failed(), "a file that can be read is not an error"),
        }
    }
    fn short(r: Result<bool, VobSubError>, e: &Env) {
        let good = match r {
            Ok(b) => !b && !e.failed(),
            Err(_) => true,
        };
        check(good, "a file too short for the magic bytes is not recognised");
    }
    pub fn idx() {
        let d = any_bytes();
        let e = Env::file(d);
        with_magic(d, IDX);
        yes(is_idx_file("any.idx"), &e);
        drop(e);
    }
    pub fn sub() {
        let d = any_bytes();
        let e = Env::file(d);
        with_magic(d, SUB);
        yes(is_sub_file("any.sub"), &e);
        drop(e);
    }
    pub fn not_sub() {
        let d = any_bytes();
        let e = Env::file(d);
        assume(d.len() >= SUB.len());
        assume(d[0] != SUB[0] || d[1] != SUB[1] || d[2] != SUB[2] || d[3] != SUB[3]);
        no(is_sub_file("any.sub"), &e);
        drop(e);
    }
    /// Another byte at `i`.
    macro_rules! differs {
        ($($f:ident $i:literal)*) => { $(
            pub fn $f() {
                let d = any_bytes();
                let e = Env::file(d);
                assume(d.len() >= IDX.len());
                assume(d[$i] != IDX[$i]);
                no(is_idx_file("any.idx"), &e);
                drop(e);
            }
        )* };
    }
    differs! { at_0 0 at_1 1 at_2 2 at_3 3 at_4 4 at_5 5 at_6 6 at_7 7 at_8 8 at_9 9 at_10 10 at_11 11 at_12 12 at_13 13 at_14 14 at_15 15 at_16 16 at_17 17 at_18 18 }
    pub fn short_idx() {
        let d = any_bytes();
        let e = Env::file(d);
        assume(d.len() < IDX.len());
        short(is_idx_file("any.idx"), &e);
        drop(e);
    }
    pub fn short_sub() {
        let d = any_bytes();
        let e = Env::file(d);
        assume(d.len() < SUB.len());
        short(is_sub_file("any.sub"), &e);
        drop(e);
    }
}

pub mod c14 {
    use super::*;
    use std::fmt::Display;
    use subtile::srt::TimePointSrt;
    use subtile::time::TimePoint;
    use subtile::vobsub::TimePointIdx;
    use subtile::webvtt::TimePointVtt;
    /// The specified text.
    fn expected(negative: bool, abs: u64, sep: &str) -> String {
        let mut s = String::new();
        if negative {
            s.push_str("-");
        }
        put_digits(&mut s, abs / 3600000, 2);
        s.push_str(":");
        put_digits(&mut s, abs / 60000 % 60, 2);
        s.push_str(":");
        put_digits(&mut s, abs / 1000 % 60, 2);
        s.push_str(sep);
        put_digits(&mut s, abs % 1000, 3);
        s
    }
    fn judge(negative: bool, abs: u64) {
        let t = TimePoint::from_msecs(if negative { -(abs as i128) as i64 } else { abs as i64 });
        check(same_text(TimePointSrt::from(t).to_string().as_bytes(), expected(negative, abs, ",").as_bytes()), "SRT time stamp");
        check(same_text(TimePointVtt::from(t).to_string().as_bytes(), expected(negative, abs, ".").as_bytes()), "WebVTT time stamp");
        check(same_text(TimePointIdx::from(t).to_string().as_bytes(), expected(negative, abs, ":").as_bytes()), "IDX time stamp");
    }
    const H: u64 = 3600000;
    pub fn short() {
        let v = any::<u64>();
        assume(v < 100 * H);
        judge(false, v);
    }
    pub fn medium() {
        let v = any::<u64>();
        assume(v >= 100 * H && v < 1000 * H);
        judge(false, v);
    }
    pub fn long() {
        let v = any::<u64>();
        assume(v >= 1000 * H && v < 1 << 63);
        judge(false, v);
    }
    pub fn negative_short() {
        let v = any::<u64>();
        assume(v > 0 && v < 100 * H);
        judge(true, v);
    }
    pub fn negative_medium() {
        let v = any::<u64>();
        assume(v >= 100 * H && v < 1000 * H);
        judge(true, v);
    }
    pub fn negative_long() {
        let v = any::<u64>();
        assume(v >= 1000 * H && v <= 1 << 63);
        judge(true, v);
    }
}

pub mod c15 {
    use super::*;
    use std::io::{self, Write};
    use subtile::time::{TimePoint, TimeSpan};
    use subtile::{srt, webvtt};
    /// Keeps what is written; a single `write` takes but one byte.
    struct Out(Vec<u8>);
    impl Write for Out {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            if b.is_empty() {
                return Ok(0);
            }
            self.0.push(b[0]);
            Ok(1)
        }
        fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
            self.0.extend_from_slice(b);
            Ok(())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    fn time(_: ()) -> TimePoint {
        let v = any::<u64>();
        assume(v < 360000000);
        TimePoint::from_msecs(v as i64)
    }
    fn text(_: ()) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(any_bytes()) }
    }
    fn srt_record(s: &mut String, n: u64, t: &TimeSpan, text: &str) {
        put_digits(s, n, 1);
        s.push_str("\n");
        s.push_str(&srt::TimePointSrt::from(t.start).to_string());
        s.push_str(" --> ");
        s.push_str(&srt::TimePointSrt::from(t.end).to_string());
        s.push_str("\n");
        s.push_str(text);
        s.push_str("\n\n");
    }
    fn judge(r: io::Result<()>, out: &Out, expected: &String) {
        check(r.is_ok(), "writing succeeds");
        check(same_text(&out.0, expected.as_bytes()), "what is written");
    }
    fn one_line(n: usize) {
        let (t, x) = (TimeSpan::new(time(()), time(())), text(()));
        let mut out = Out(vec![]);
        let r = srt::write_line(&mut out, n, &t, x);
        let mut s = String::new();
        srt_record(&mut s, n as u64, &t, x);
        judge(r, &out, &s);
    }
    pub fn srt_line_short() {
        let n = any::<usize>();
        assume(n < 10);
        one_line(n);
    }
    pub fn srt_line_medium() {
        let n = any::<usize>();
        assume(n >= 10 && n < 100);
        one_line(n);
    }
    pub fn srt_line_long() {
        let n = any::<usize>();
        assume(n >= 1000);
        one_line(n);
    }
    pub fn srt_empty_text() {
        let (t, n) = (TimeSpan::new(time(()), time(())), 7);
        let mut out = Out(vec![]);
        let r = srt::write_line(&mut out, n, &t, "");
        let mut s = String::new();
        srt_record(&mut s, n as u64, &t, "");
        judge(r, &out, &s);
    }
    pub fn vtt_line() {
        let (t, x) = (TimeSpan::new(time(()), time(())), text(()));
        let mut out = Out(vec![]);
        let r = webvtt::write_line(&mut out, &t, x);
        let mut s = String::new();
        s.push_str(&webvtt::TimePointVtt::from(t.start).to_string());
        s.push_str(" --> ");
        s.push_str(&webvtt::TimePointVtt::from(t.end).to_string());
        s.push_str("\n");
        s.push_str(x);
        s.push_str("\n\n");
        judge(r, &out, &s);
    }
    fn list(l: &[(TimeSpan, String)]) {
        let mut out = Out(vec![]);
        let r = srt::write_srt(&mut out, l);
        let mut s = String::new();
        let mut i = 0;
        while i < l.len() {
            srt_record(&mut s, i as u64 + 1, &l[i].0, &l[i].1);
            i += 1;
        }
        judge(r, &out, &s);
    }
    fn sub(_: ()) -> (TimeSpan, String) {
        (TimeSpan::new(time(()), time(())), text(()).to_string())
    }
    pub fn srt_0() {
        list(&[]);
    }
    pub fn srt_1() {
        list(&[sub(())]);
    }
    pub fn srt_2() {
        list(&[sub(()), sub(())]);
    }
    pub fn srt_3() {
        list(&[sub(()), sub(()), sub(())]);
    }
    pub fn srt_11() {
        let mut l = vec![];
        let mut i = 0;
        while i < 11 {
            l.push((TimeSpan::new(TimePoint::from_msecs(i * 1001), TimePoint::from_msecs(i * 1001 + 1)), "x".to_string()));
            i += 1;
        }
        list(&l);
    }
}

pub mod c22 {
    use super::*;
    use image::{GrayImage, ImageBuffer, Luma};
    use std::path::{Path, PathBuf};
    use subtile::image::{dump_images, DumpError};
    use subtile::SubtileError;
    fn text(_: ()) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(any_bytes()) }
    }
    fn image(w: u32) -> GrayImage {
        let v: Vec<u8> = any();
        let i = ImageBuffer::<Luma<u8>, Vec<u8>>::from_raw(w, 1, v);
        assume(i.is_some());
        i.unwrap()
    }
    fn same_path(a: &Path, b: &Path) -> bool {
        same_text(a.as_os_str().as_encoded_bytes(), b.as_os_str().as_encoded_bytes())
    }
    /// Images, their widths counting from 1.
    fn images(n: usize) -> Vec<GrayImage> {
        let mut v = vec![];
        let mut i = 0;
        while i < n {
            v.push(image(i as u32 + 1));
            i += 1;
        }
        v
    }
    fn saved(folder: &str, e: &Env) {
        let mut i = 0;
        while i < e.saved.len() {
            check(e.saved[i].0 as usize == i + 1, "images are saved in order");
            check(same_path(&e.saved[i].1, &place(folder, i)), "the file of an image");
            i += 1;
        }
    }
    fn created(folder: &str, e: &Env) {
        check(e.created.len() == 1, "the folder is created if it is missing");
        check(same_path(&e.created[0], Path::new(folder)), "the requested folder is created");
    }
    fn not_created(e: &Env) {
        check(e.created.len() == 0, "a folder that exists is not created");
    }
    fn done(n: usize, e: &Env) {
        check(!e.failed(), "failures are reported");
        check(e.saved.len() == n, "all images are saved");
    }
    fn folder_error(x: &DumpError, folder: &str, e: &Env) {
        check(e.failed() && !e.dir && e.saved.len() == 0, "failures to create the folder are reported as such");
        let good = match x {
            DumpError::Folder { path, .. } => same_path(path, Path::new(folder)),
            _ => false,
        };
        check(good, "the folder that could not be created");
    }
    fn image_error(x: &DumpError, folder: &str, e: &Env) {
        check(e.failed() && e.dir && e.saved.len() > 0, "failures to save are reported as such");
        let good = match x {
            DumpError::DumpImage { filename, .. } => same_path(filename, &place(folder, e.saved.len() - 1)),
            _ => false,
        };
        check(good, "the file that could not be saved");
    }
    fn dump_error(x: &SubtileError) -> &DumpError {
        match x {
            SubtileError::ImageDump(d) => d,
            _ => {
                never("kind of the error");
                loop {}
            }
        }
    }
    fn any_folder(_: ()) -> &'static str {
        text(())
    }
    macro_rules! in_dir {
        ($($f:ident $n:literal $folder:ident)*) => { $(
            pub fn $f() {
                let mut e = Env::new();
                e.dir = true;
                let folder = $folder(());
                let r = dump_images(folder, images($n));
                not_created(&e);
                saved(folder, &e);
                match &r {
                    Ok(()) => done($n, &e),
                    Err(x) => image_error(dump_error(x), folder, &e),
                }
                drop(e);
            }
        )* };
    }
    in_dir! { in_dir_1 1 any_folder in_dir_2 2 any_folder in_dir_3 3 any_folder }
    pub fn in_dir_0() {
        let mut e = Env::new();
        e.dir = true;
        let r = dump_images(text(()), images(0));
        not_created(&e);
        check(r.is_ok(), "nothing to save");
        done(0, &e);
        drop(e);
    }
    macro_rules! no_dir {
        ($($f:ident $n:literal $folder:ident)*) => { $(
            pub fn $f() {
                let e = Env::new();
                let folder = $folder(());
                let r = dump_images(folder, images($n));
                created(folder, &e);
                saved(folder, &e);
                match &r {
                    Ok(()) => done($n, &e),
                    Err(x) => {
                        if e.saved.len() == 0 {
                            folder_error(dump_error(x), folder, &e);
                        } else {
                            image_error(dump_error(x), folder, &e);
                        }
                    }
                }
                drop(e);
            }
        )* };
    }
    no_dir! { no_dir_1 1 any_folder no_dir_2 2 any_folder }
    pub fn no_dir_0() {
        let e = Env::new();
        let folder = text(());
        let r = dump_images(folder, images(0));
        created(folder, &e);
        match &r {
            Ok(()) => done(0, &e),
            Err(x) => folder_error(dump_error(x), folder, &e),
        }
        drop(e);
    }
    fn many(n: usize, e: &mut Env) {
        let r = dump_images("out", images(n));
        created("out", e);
        saved("out", e);
        check(r.is_ok(), "nothing fails");
        done(n, e);
    }
    /// Any number of images, their widths counting from 1.
    struct Images {
        made: u32,
        all: u32,
    }
    impl Iterator for Images {
        type Item = GrayImage;
        fn next(&mut self) -> Option<GrayImage> {
            if self.made == self.all {
                return None;
            }
            self.made += 1;
            Some(image(self.made))
        }
    }
    pub fn any_number() {
        let mut e = Env::new();
        e.calm = true;
        e.dir = true;
        e.folder = Some("out");
        let all: u32 = any();
        assume(all <= 1_000_000);
        let r = dump_images("out", Images { made: 0, all });
        check(r.is_ok(), "nothing fails");
        check(e.next == all as usize, "all images are saved");
        drop(e);
    }
    pub fn many_11() {
        let mut e = Env::new();
        e.calm = true;
        many(11, &mut e);
        drop(e);
    }
    pub fn many_101() {
        let mut e = Env::new();
        e.calm = true;
        many(101, &mut e);
        drop(e);
    }
}

pub mod c07 {
    use super::*;
    use image::GrayImage;
    use std::fs::File;
    use std::io::BufReader;
    use subtile::image::dump_images;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, SupParser};
    use subtile::time::{TimePoint, TimeSpan};
    use subtile::vobsub::{Index, Sub};
    use subtile::{srt, webvtt};
    fn judge(reported: bool, e: &Env) {
        check(!e.failed() || reported, "a failure is reported");
    }
    fn reader(_: ()) -> AnyReader {
        let mut r = AnyReader::new();
        r.pos = any();
        r
    }
    fn next<D: PgsDecoder>(_: ()) -> bool {
        let mut r = reader(());
        matches!(SupParser::<_, D>::new(&mut r).next(), Some(Err(_)))
    }
    pub fn times() {
        let e = Env::new();
        judge(next::<DecodeTimeOnly>(()), &e);
        drop(e);
    }
    pub fn images() {
        let e = Env::new();
        judge(next::<DecodeTimeImage>(()), &e);
        drop(e);
    }
    pub fn sup_file() {
        let e = Env::new();
        judge(SupParser::<BufReader<File>, DecodeTimeOnly>::from_file("any.sup").is_err(), &e);
        drop(e);
    }
    pub fn sup_file_images() {
        let e = Env::new();
        judge(SupParser::<BufReader<File>, DecodeTimeImage>::from_file("any.sup").is_err(), &e);
        drop(e);
    }
    pub fn sub_file() {
        let e = Env::new();
        judge(Sub::open("any.sub").is_err(), &e);
        drop(e);
    }
    pub fn idx_file() {
        let e = Env::new();
        judge(Index::open("any.idx").is_err(), &e);
        drop(e);
    }
    pub fn idx_reader() {
        let e = Env::new();
        let r = Index::read_index(BufReader::new(AnyReader::new()), &|source| VobSubError::Io { source, path: std::path::PathBuf::new() });
        judge(r.is_err(), &e);
        drop(e);
    }
    pub fn is_idx() {
        let e = Env::new();
        judge(is_idx_file("any.idx").is_err(), &e);
        drop(e);
    }
    pub fn is_sub() {
        let e = Env::new();
        judge(is_sub_file("any.sub").is_err(), &e);
        drop(e);
    }
    fn time(_: ()) -> TimeSpan {
        TimeSpan::new(TimePoint::from_msecs(7), TimePoint::from_msecs(9))
    }
    pub fn srt_line() {
        let e = Env::new();
        judge(srt::write_line(&mut AnyWriter::new(), 1, &time(()), "text").is_err(), &e);
        drop(e);
    }
    pub fn srt_list() {
        let e = Env::new();
        judge(srt::write_srt(&mut AnyWriter::new(), &[(time(()), "text".to_string()), (time(()), "other".to_string())]).is_err(), &e);
        drop(e);
    }
    pub fn vtt_line() {
        let e = Env::new();
        judge(webvtt::write_line(&mut AnyWriter::new(), &time(()), "text").is_err(), &e);
        drop(e);
    }
    pub fn dump() {
        let e = Env::new();
        let v: Vec<u8> = any();
        let i = GrayImage::from_raw(1, 1, v);
        assume(i.is_some());
        judge(dump_images("out", [i.unwrap()]).is_err(), &e);
        drop(e);
    }
}

pub mod c05 {
    use super::*;
    use std::io::BufReader;
    use subtile::vobsub::{palette, Index};
    pub fn open() {
        let _ = Index::open("any.idx").is_ok();
    }
    pub fn read() {
        let _ = Index::read_index(BufReader::new(AnyReader::new()), &|source| VobSubError::Io { source, path: std::path::PathBuf::new() }).is_ok();
    }
    pub fn palette_line() {
        let _ = palette(any_bytes()).is_ok();
    }
}

/// The chain of sources of an error after an I/O failure.
pub mod c18 {
    use super::*;
    use image::GrayImage;
    use std::error::Error;
    use std::fs::File;
    use std::io::{self, BufReader};
    use subtile::image::dump_images;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, SupParser};
    use subtile::vobsub::{Index, Sub};
    fn env(_: ()) -> Env {
        let k = any::<io::ErrorKind>();
        assume(k != io::ErrorKind::Interrupted && k != io::ErrorKind::UnexpectedEof);
        Env { failure: Some(k), ..Env::new() }
    }
    fn judge<E: Error + 'static>(x: Option<E>, e: &Env) {
        if !e.failed() {
            return;
        }
        if let Some(x) = x {
            let mut at: &(dyn Error + 'static) = &x;
            // an `ImageError` stands for the I/O error in it
            while !at.is::<io::Error>() && !at.is::<image::ImageError>() {
                match at.source() {
                    Some(s) => at = s,
                    None => break,
                }
            }
            if let (Some(at), Some(k)) = (at.downcast_ref::<io::Error>(), e.failure) {
                check(at.kind() == k, "the I/O error is the one that happened");
            }
            check(at.is::<io::Error>() || at.is::<image::ImageError>(), "the I/O error is in the chain of sources");
        }
    }
    fn next<D: PgsDecoder>(_: ()) -> Option<subtile::pgs::PgsError> {
        let mut r = AnyReader::new();
        r.pos = any();
        SupParser::<_, D>::new(&mut r).next().and_then(Result::err)
    }
    pub fn times_read() {
        let e = Env { only: 1, ..env(()) };
        judge(next::<DecodeTimeOnly>(()), &e);
        drop(e);
    }
    pub fn times_fill() {
        let e = Env { only: 2, ..env(()) };
        judge(next::<DecodeTimeOnly>(()), &e);
        drop(e);
    }
    pub fn times_seek() {
        let e = Env { only: 3, ..env(()) };
        judge(next::<DecodeTimeOnly>(()), &e);
        drop(e);
    }
    pub fn images_read() {
        let e = Env { only: 1, ..env(()) };
        judge(next::<DecodeTimeImage>(()), &e);
        drop(e);
    }
    pub fn images_fill() {
        let e = Env { only: 2, ..env(()) };
        judge(next::<DecodeTimeImage>(()), &e);
        drop(e);
    }
    pub fn images_seek() {
        let e = Env { only: 3, ..env(()) };
        judge(next::<DecodeTimeImage>(()), &e);
        drop(e);
    }
    pub fn sup_file() {
        let e = env(());
        judge(SupParser::<BufReader<File>, DecodeTimeOnly>::from_file("any.sup").err(), &e);
        drop(e);
    }
    pub fn sub_file() {
        let e = env(());
        judge(Sub::open("any.sub").err(), &e);
        drop(e);
    }
    pub fn idx_file() {
        let e = env(());
        judge(Index::open("any.idx").err(), &e);
        drop(e);
    }
    pub fn probes() {
        let e = env(());
        judge(is_idx_file("any.idx").err(), &e);
        drop(e);
    }
    pub fn sub_probe() {
        let e = env(());
        judge(is_sub_file("any.sub").err(), &e);
        drop(e);
    }
    pub fn dump() {
        let e = env(());
        let v: Vec<u8> = any();
        let i = GrayImage::from_raw(1, 1, v);
        assume(i.is_some());
        judge(dump_images("out", [i.unwrap()]).err(), &e);
        drop(e);
    }
}

/// Loops of every operation on input.
pub mod c06 {
    use super::*;
    use image::GrayImage;
    use std::io::BufReader;
    use subtile::image::dump_images;
    use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
    use subtile::time::TimeSpan;
    use subtile::vobsub::{palette, Index, Sub, VobSubIndexedImage};
    pub fn sub() {
        let mut p = any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        drop(p.next());
    }
    pub fn sup_times() {
        let mut r = AnyReader::new();
        r.pos = any();
        drop(SupParser::<_, DecodeTimeOnly>::new(&mut r).next());
    }
    pub fn sup_images() {
        let mut r = AnyReader::new();
        r.pos = any();
        drop(SupParser::<_, DecodeTimeImage>::new(&mut r).next());
    }
    pub fn idx_file() {
        let mut e = Env::new();
        e.left = Some(any());
        let _ = Index::open("any.idx").is_ok();
        drop(e);
    }
    pub fn idx_reader() {
        let mut e = Env::new();
        e.left = Some(any());
        let _ = Index::read_index(BufReader::new(AnyReader::new()), &|source| VobSubError::Io { source, path: std::path::PathBuf::new() }).is_ok();
        drop(e);
    }
    pub fn palette_line() {
        let _ = palette(any_bytes()).is_ok();
    }
    pub fn probes() {
        let _ = is_idx_file("any.idx").is_ok();
        let _ = is_sub_file("any.sub").is_ok();
    }
}

pub mod c26 {
    use super::*;
    use std::io::BufReader;
    use subtile::vobsub::Index;

    /// What a placeholder of a pattern stands for.
    fn fits(_: (), p: u8, b: u8) {
        match p {
            b'#' => assume(b >= b'0' && b <= b'9'),
            b'~' => assume(b >= b'a' && b <= b'f'),
            b'^' => assume(b >= b'A' && b <= b'F'),
            b'_' => assume(b >= b'a' && b <= b'z'),
            // visible and not a digit
            1 => assume(b > b' ' && b < b'0'),
            2 => assume(b > b'9' && b < b'A'),
            3 => assume(b > b'F' && b < b'a'),
            4 => assume(b > b'f' && b < 127),
            // visible, and not a comma
            5 => assume(b > b' ' && b < b','),
            // visible and not a small letter or a comma
            9 => assume(b > b' ' && b < b','),
            11 => assume(b >= b'A' && b <= b'Z'),
            14 => assume(b > b'Z' && b < b'a'),
            12 => assume(b > b'z' && b < 127),
            6 => assume(b > b',' && b < 127),
            // any that does not end the line
            7 => assume(b > b'\n' && b < 128),
            8 => assume(b > b' ' && b < 127),
            _ => assume(b == p),
        }
    }
    /// Any content of the given form.
    fn form(_: (), p: &[u8]) -> &'static [u8] {
        let d = any_bytes();
        assume(d.len() == p.len());
        let mut i = 0;
        while i < p.len() {
            fits((), p[i], d[i]);
            i += 1;
        }
        d
    }
    /// `n` colours of six digits of the given form.
    fn line(_: (), n: usize, digit: u8) -> Vec<u8> {
        let mut v = b"palette: ".to_vec();
        colours(&mut v, n, digit);
        v
    }
    fn colours(v: &mut Vec<u8>, n: usize, digit: u8) {
        let mut k = 0;
        while k < n {
            if k > 0 {
                v.extend_from_slice(b", ");
            }
            v.extend_from_slice(&[digit; 6]);
            k += 1;
        }
    }
    fn value(d: &[u8], i: usize, base: u8) -> u8 {
        (d[i] - base) * 16 + (d[i + 1] - base)
    }
    fn read(d: &'static [u8]) -> Result<Index, VobSubError> {
        Index::read_index(BufReader::new(FullReader::new(d)), &|source| VobSubError::Io { source, path: std::path::PathBuf::new() })
    }
    fn same(d: &'static [u8], from: usize, base: u8, r: Result<Index, VobSubError>) {
        match r {
            Ok(x) => {
                let p = x.palette();
                let mut k = 0;
                while k < 16 {
                    let at = from + 8 * k;
                    check(p[k].0[0] == value(d, at, base), "red of an entry");
                    check(p[k].0[1] == value(d, at + 2, base), "green of an entry");
                    check(p[k].0[2] == value(d, at + 4, base), "blue of an entry");
                    k += 1;
                }
            }
            Err(_) => never("a good palette line is read"),
        }
    }
    fn good(_: (), digit: u8, base: u8, end: &[u8], e: &mut Env) {
        let mut v = line((), 16, digit);
        v.extend_from_slice(end);
        let d = form((), &v);
        e.content = Some(d);
        e.calm = true;
        same(d, 9, base, read(d));
    }
    pub fn decimal() {
        let mut e = Env::new();
        good((), b'#', b'0', b"\n", &mut e);
        drop(e);
    }
    pub fn lower() {
        let mut e = Env::new();
        good((), b'~', b'a' - 10, b"\r\n", &mut e);
        drop(e);
    }
    pub fn upper() {
        let mut e = Env::new();
        good((), b'^', b'A' - 10, b"", &mut e);
        drop(e);
    }
    fn bad(v: &[u8], e: &mut Env) {
        let d = form((), v);
        e.content = Some(d);
        e.calm = true;
        check(read(d).is_err(), "a bad palette line is an error");
    }
    fn entries(_: (), n: usize, e: &mut Env) {
        let mut v = line((), n, b'#');
        v.push(b'\n');
        bad(&v, e);
    }
    macro_rules! counts {
        ($($n:ident $k:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            entries((), $k, &mut e);
            drop(e);
        })* };
    }
    counts! { one 1 two 2 eight 8 fifteen 15 seventeen 17 thirty_two 32 }
    fn digit(_: (), at: usize, class: u8, e: &mut Env) {
        let mut v = line((), 16, b'#');
        v[9 + at] = class;
        v.push(b'\n');
        bad(&v, e);
    }
    macro_rules! digits {
        ($($n:ident $k:literal $c:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            digit((), $k, $c, &mut e);
            drop(e);
        })* };
    }
    digits! {
        first1 0 1 first2 0 2 first3 0 3 first4 0 4
        second1 1 1 second4 1 4
        third1 2 1 third4 2 4
        sixth1 5 1 sixth2 5 2 sixth3 5 3 sixth4 5 4
        middle1 67 1 middle2 68 2 middle3 66 3 middle4 67 4
        last1 125 1 last2 125 2 last3 125 3 last4 125 4
        before_last1 124 1 before_last4 124 4
        comma1 6 5 comma2 6 6 comma3 62 5 comma4 118 6
        space1 7 8 space2 63 8 space3 119 8
    }
    fn length(_: (), at: usize, more: bool, e: &mut Env) {
        let mut v = line((), 16, b'#');
        if more {
            v.insert(9 + at, b'#');
        } else {
            v.remove(9 + at);
        }
        v.push(b'\n');
        bad(&v, e);
    }
    macro_rules! lengths {
        ($($n:ident $k:literal $m:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            length((), $k, $m, &mut e);
            drop(e);
        })* };
    }
    lengths! {
        short_first 0 false short_middle 64 false short_last 120 false
        long_first 0 true long_middle 64 true long_last 120 true
        no_comma 6 false no_space 7 false no_last_space 119 false
    }
    fn after(_: (), t: &[u8], e: &mut Env) {
        let mut v = line((), 16, b'~');
        v.extend_from_slice(t);
        bad(&v, e);
    }
    macro_rules! afters {
        ($($n:ident $t:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            after((), $t, &mut e);
            drop(e);
        })* };
    }
    afters! {
        junk b"\x08\n" junk_after_space b" \x08\n" junk_comma b", \x08\n" trailing_comma b",\n" half_entry b", 12\n" }
    fn before(_: (), t: &[u8], e: &mut Env) {
        let mut v = b"palette: ".to_vec();
        v.extend_from_slice(t);
        colours(&mut v, 16, b'^');
        v.push(b'\n');
        bad(&v, e);
    }
    macro_rules! befores {
        ($($n:ident $t:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            before((), $t, &mut e);
            drop(e);
        })* };
    }
    befores! { lead b"\x08" lead_comma b", " lead_sharp b"0x" }

    /// A bad line is an error whatever stands before or after it.
    pub fn bad_after_good() {
        let mut e = Env::new();
        let mut v = line((), 16, b'#');
        v.push(b'\n');
        v.extend_from_slice(b"palette: 000000\n");
        bad(&v, &mut e);
        drop(e);
    }
    pub fn good_after_bad() {
        let mut e = Env::new();
        let mut v = b"palette: 000000\n".to_vec();
        v.append(&mut line((), 16, b'#'));
        bad(&v, &mut e);
        drop(e);
    }
    pub fn bad_after_others() {
        let mut e = Env::new();
        let mut v = b"# VobSub\nsize: 720x576\n\nid: en, index: 0\n".to_vec();
        v.append(&mut line((), 15, b'#'));
        bad(&v, &mut e);
        drop(e);
    }
    pub fn bad_before_others() {
        let mut e = Env::new();
        let mut v = line((), 15, b'#');
        v.extend_from_slice(b"\nid: en, index: 0\n");
        bad(&v, &mut e);
        drop(e);
    }
    /// A good line counts wherever it stands.
    fn placed(_: (), first: &[u8], last: &[u8], e: &mut Env) {
        let mut v = first.to_vec();
        v.append(&mut line((), 16, b'#'));
        v.extend_from_slice(last);
        let d = form((), &v);
        e.content = Some(d);
        e.calm = true;
        same(d, first.len() + 9, b'0', read(d));
    }
    macro_rules! places {
        ($($n:ident $a:literal $b:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            placed((), $a, $b, &mut e);
            drop(e);
        })* };
    }
    places! {
        place_after b"# VobSub index file, v7\nsize: 720x576\n\nid: en, index: 0\n" b"\n"
        place_before b"" b"  \n# x\nid: en, index: 0\ntimestamp: 00:00:00:001, filepos: 000000000\n"
    }

    // ------------------------------------------------ no palette line
    const DEFAULT: [[u8; 3]; 16] = [
        [0x00, 0x00, 0x00], [0xf0, 0xf0, 0xf0], [0xcc, 0xcc, 0xcc], [0x99, 0x99, 0x99],
        [0x33, 0x33, 0xfa], [0x11, 0x11, 0xbb], [0xfa, 0x33, 0x33], [0xbb, 0x11, 0x11],
        [0x33, 0xfa, 0x33], [0x11, 0xbb, 0x11], [0xfa, 0xfa, 0x33], [0xbb, 0xbb, 0x11],
        [0xfa, 0x33, 0xfa], [0xbb, 0x11, 0xbb], [0x33, 0xfa, 0xfa], [0x11, 0xbb, 0xbb],
    ];
    fn default(p: &[u8], e: &mut Env) {
        let d = form((), p);
        e.content = Some(d);
        e.calm = true;
        match read(d) {
            Ok(x) => {
                let p = x.palette();
                let mut k = 0;
                while k < 16 {
                    check(p[k].0[0] == DEFAULT[k][0] && p[k].0[1] == DEFAULT[k][1] && p[k].0[2] == DEFAULT[k][2], "default palette");
                    k += 1;
                }
            }
            Err(_) => never("an index without palette line is read"),
        }
    }
    macro_rules! defaults {
        ($($n:ident $t:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            default($t, &mut e);
            drop(e);
        })* };
    }
    defaults! {
        default_empty b"" default_line b"\n" default_comment b"# palette\n"
        default_size b"size: 720x576\nid: __, index: #\n"
        default_other b"palettes: ######\n" default_comment2 b"# palette: ######\n"
    }

    // ------------------------------------------------ language
    fn lang(p: &[u8], at: usize, n: usize, e: &mut Env) {
        let d = form((), p);
        e.content = Some(d);
        e.calm = true;
        match read(d) {
            Ok(x) => match x.lang().as_ref() {
                Some(l) => {
                    let t = l.lang().as_bytes();
                    check(t.len() == n, "length of the language");
                    let mut k = 0;
                    while k < n {
                        check(t[k] == d[at + k], "letter of the language");
                        k += 1;
                    }
                }
                None => never("a language is reported from its line"),
            },
            Err(_) => never("a good index is read"),
        }
    }
    fn no_lang(p: &[u8], e: &mut Env) {
        let d = form((), p);
        e.content = Some(d);
        e.calm = true;
        match read(d) {
            Ok(x) => check(x.lang().is_none(), "no language from another line"),
            Err(_) => {}
        }
    }
    macro_rules! langs {
        ($($n:ident $t:literal $a:literal $k:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            lang($t, $a, $k, &mut e);
            drop(e);
        })* };
    }
    langs! {
        lang1 b"id: _, index: #\n" 4 1
        lang2 b"id: __, index: ##\r\n" 4 2
        lang3 b"size: 720x576\nid: ___, index: #" 18 3
        lang_free b"id: __, index: \x08\n" 4 2
    }
    macro_rules! no_langs {
        ($($n:ident $t:literal)*) => { $(pub fn $n() {
            let mut e = Env::new();
            no_lang($t, &mut e);
            drop(e);
        })* };
    }
    no_langs! {
        nl_empty b"" nl_comment b"# id: en, index: 0\n" nl_alt b"alt: __, index: #\n" nl_key b"ids: __, index: #\n"
        nl_langidx b"langidx: #\n" nl_short b"id: __\n" nl_upper b"id: ^^, index: 0\n" nl_digit b"id: _#, index: 0\n"
        nl_lead b"id: #_, index: 0\n" nl_none b"id: , index: 0\n" nl_other b"id: __, index\x01 0\n" nl_semi b"id: __; index: 0\n"
        nl_two b"id: __ __, index: 0\n" nl_space b"id: --, index: 0\n"
        nl_end1 b"id: _\x09, index: #\n" nl_end2 b"id: __\x0b, index: #\n" nl_end3 b"id: __\x0c, index: #\n"
        nl_start1 b"id: \x09__, index: #\n" nl_start2 b"id: \x0b__, index: #\n" nl_start3 b"id: \x0c__, index: #\n"
        nl_mid1 b"id: _\x09_, index: #\n" nl_mid2 b"id: _\x0b_, index: #\n" nl_mid3 b"id: _\x0c_, index: #\n"
        nl_after b"id: __ , index: #\n" nl_key_space b"id : __, index: #\n" nl_no_space b"id: __,index: #\n"
        nl_index b"id: __, indez: #\n" nl_equal b"id: __, index= #\n" nl_number b"id: __, #\n"
        nl_end4 b"id: __\x0e, index: #\n" nl_end5 b"id: _#, index: #\n" nl_mid4 b"id: _\x0e_, index: #\n" nl_mid5 b"id: _#_, index: #\n"
        nl_start4 b"id: \x0e_, index: #\n" nl_start5 b"id: #__, index: #\n"
        nl_long b"id: _____\x0b, index: #\n"
    }
}

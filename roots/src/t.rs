use crate::sa::*;
pub fn t1() {
    let a = any::<u8>();
    let b = a as u32 + 3;
    check(b >= 3 && b <= 258, "range");
    check(b >= 4, "must fail");
}
pub fn t2() {
    let d = any_bytes();
    let mut i = 0;
    let mut s = 0u64;
    while i < d.len() {
        s = s.wrapping_add(d[i] as u64);
        i += 1;
    }
    check(i == d.len(), "i=len");
}
pub fn t3() {
    let d = any_bytes();
    let mut n = 0;
    for x in d.iter() { if *x == 3 { n += 1; } }
    check(n <= d.len(), "n<=len");
}
pub fn t4() {
    let d = any_bytes();
    let mut v = Vec::new();
    for x in d { v.push(*x); }
    check(v.len() == d.len(), "len");
    let k = any::<usize>();
    if k < v.len() { let _ = v[k]; }
}
pub fn t5() {
    use std::io::Read;
    let mut r = AnyReader::new();
    let mut b = [0u8; 4];
    if r.read_exact(&mut b).is_ok() {
        check(r.pos == 4, "pos");
        let x = u32::from_be_bytes(b);
        check(x >> 24 == b[0] as u32, "be");
    }
}
pub fn t6() {
    let d = any_bytes();
    let needle = &[0u8, 0, 1, 0xba];
    let start = d.windows(needle.len()).position(|w| needle == w);
    if let Some(s) = start {
        check(s + 4 <= d.len(), "fits");
        let r = &d[s..];
        check(r[0] == 0, "r0");
        check(r[3] == 0xba, "r3");
    }
}
pub fn t7() {
    let v = any::<u64>();
    assume(v < 1 << 42);
    let base = ((v >> 9) as f64 + (v & 0x1ff) as f64 / 300.0) / 90000.0;
    let mut start = None;
    let mut end = None;
    let mut off = any::<u16>();
    loop {
        let d = any::<u16>();
        let time = base + f64::from(d) / 100.0;
        while any::<bool>() {
            match any::<u8>() {
                0 => start = start.or(Some(time)),
                _ => end = end.or(Some(time)),
            }
        }
        if any::<bool>() { break }
    }
    let Some(s) = start else { return };
    let t = subtile::time::TimePoint::from_secs(s);
}
pub fn t8() {
    let d = any::<[u8; 4]>();
    let mut it = d.into_iter().rev();
    let e: [u8; 4] = [(); 4].map(|_| it.next().unwrap());
    check(e[0] == d[3], "rev0");
    check(e[3] == d[0], "rev3");
}
pub fn t9() {
    let v = any::<u64>();
    assume(v < 1 << 42);
    let base = ((v >> 9) as f64 + (v & 0x1ff) as f64 / 300.0) / 90000.0;
    let mut start = None;
    loop {
        let d = any::<u16>();
        let time = base + f64::from(d) / 100.0;
        start = start.or(Some(time));
        if any::<bool>() { break }
    }
    let Some(s) = start else { return };
    check(s == s, "nan");
    check(s < 1e16, "hi");
    check(s >= 0.0, "lo");
    check(s * 1000.0 < 2e18, "hi2");
}
pub fn t10() {
    use subtile::content::{Area, AreaValues};
    let mut area: Option<Area> = None;
    loop {
        let c = AreaValues { x1: any(), y1: any(), x2: any(), y2: any() };
        let Ok(a) = Area::try_from(c) else { return };
        area = area.or(Some(a));
        if any::<bool>() { break }
    }
    let Some(s) = area else { return };
    check(s.width() > 0, "w");
}
pub fn t11() {
    use subtile::content::{Area, AreaValues};
    let c = AreaValues { x1: any(), y1: any(), x2: any(), y2: any() };
    let Ok(a) = Area::try_from(c) else { return };
    let size = a.size();
    let mut img = vec![0u8; size.w * size.h];
    for y in 0..size.h {
        let l = &mut img[y * size.w..(y + 1) * size.w];
        check(l.len() > 0, "l");
    }
}
pub fn hx() {
    let c = any::<u8>();
    if c.is_ascii_hexdigit() { check(c < 128, "hexdigit small"); }
}
pub fn hx2() {
    let c = any::<u8>();
    let p = |c: u8| c.is_ascii_hexdigit();
    if !(p)(c) { return; }
    check(c < 128, "hexdigit small 2");
}
pub fn hx3() {
    let d = any_bytes();
    let mut n = 0;
    for (i, c) in d.iter().copied().enumerate() {
        if i == 2 { break; }
        if !c.is_ascii_hexdigit() { return; }
        n += 1;
    }
    if n == 2 {
    check(d[0] < 128, "hexdigit small 3");
    check(d[1] < 128, "hexdigit small 3");
    }
}
fn p4(d: &[u8]) -> Option<&[u8]> {
    let mut n = 0;
    for (i, c) in d.iter().copied().enumerate() {
        if i == 2 { return Some(&d[..2]); }
        if !c.is_ascii_hexdigit() { return None; }
        n += 1;
    }
    if n == 2 { Some(d) } else {None}
}
pub fn hx4() {
    let d = any_bytes();
    if let Some(d) = p4(d) {
    check(d[0] < 128, "hexdigit small 3");
    check(d[1] < 128, "hexdigit small 3");
    }
}

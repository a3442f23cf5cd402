//! Report of one run, printed as lines of JSON for check.py.
use std::cell::RefCell;

thread_local! {
    static REP: RefCell<Rep> = RefCell::new(Rep::default());
}
#[derive(Default)]
struct Rep {
    viol: Vec<(String, String)>,
    counts: Vec<(String, i64)>,
    lists: Vec<(String, Vec<String>)>,
}
pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
/// Record a violation (once per key).
pub fn violation(key: &str, text: &str) {
    REP.with(|r| {
        let mut r = r.borrow_mut();
        if !r.viol.iter().any(|v| v.0 == key) {
            r.viol.push((key.to_string(), text.to_string()));
        }
    })
}
pub fn count(name: &str, n: i64) {
    REP.with(|r| {
        let mut r = r.borrow_mut();
        match r.counts.iter_mut().find(|c| c.0 == name) {
            Some(c) => c.1 += n,
            None => r.counts.push((name.to_string(), n)),
        }
    })
}
pub fn list(name: &str, v: Vec<String>) {
    REP.with(|r| r.borrow_mut().lists.push((name.to_string(), v)))
}
pub fn finish(path: &str) {
    REP.with(|r| {
        let r = r.borrow();
        let mut s = String::from("{\"violations\":[");
        s.push_str(&r.viol.iter().map(|v| format!("{{\"key\":{},\"text\":{}}}", js(&v.0), js(&v.1))).collect::<Vec<_>>().join(","));
        s.push_str("],\"counts\":{");
        s.push_str(&r.counts.iter().map(|v| format!("{}:{}", js(&v.0), v.1)).collect::<Vec<_>>().join(","));
        s.push_str("},\"lists\":{");
        s.push_str(
            &r.lists
                .iter()
                .map(|v| format!("{}:[{}]", js(&v.0), v.1.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("}}\n");
        std::fs::write(path, s).expect("report");
    })
}

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
thread_local! {
    static BEAT: Cell<Option<&'static AtomicU64>> = const { Cell::new(None) };
}
/// the counter by which the supervisor sees that this thread goes on
pub fn set_beat(b: &'static AtomicU64) {
    BEAT.with(|c| c.set(Some(b)));
}
/// called at every step of the code under test, while a program is running (its time is limited elsewhere),
/// and in the costly reference models: only a library call can be silent for long
pub fn beat() {
    BEAT.with(|c| {
        if let Some(b) = c.get() {
            b.fetch_add(1, Ordering::Relaxed);
        }
    });
}
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for c in b.iter().take(200) {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    if b.len() > 200 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s.push('"');
    s
}
/// a list, shortened
pub fn list<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 60 {
        return format!("{:?}", v);
    }
    let a = format!("{:?}", &v[..40]);
    let b = format!("{:?}", &v[v.len() - 10..]);
    format!("{}, ... {} of {} numbers", &a[..a.len() - 1], &b[1..], v.len())
}

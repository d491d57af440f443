//! `release-probe text` (text on standard input) or `release-probe number K`: prints one line per library call.
mod calls;
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let v = match a.get(1).map(|s| s.as_str()) {
        Some("text") => {
            let mut t = vec![];
            std::io::stdin().read_to_end(&mut t).unwrap();
            calls::on_text(&t)
        }
        Some("number") => calls::on_number(a[2].parse().unwrap()),
        _ => panic!("usage"),
    };
    let s: Vec<String> = v.into_iter().map(|(n, r)| format!("{} = {}\n", n, r)).collect();
    std::io::stdout().write_all(s.concat().as_bytes()).unwrap();
}

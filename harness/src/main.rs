//! Verification harnesses; see /verif/DESIGN.md.  One module per property, selected by feature.
mod rt;

macro_rules! entries {
    ($($name:ident = $f:path;)*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C-unwind" fn $name() { $f() }
        )*
        pub static TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
macro_rules! properties {
    ($($feat:literal $m:ident;)*) => {
        $(#[cfg(feature = $feat)] mod $m;)*
        fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v = Vec::new();
            $(#[cfg(feature = $feat)] v.extend_from_slice($m::TABLE);)*
            v
        }
    };
}
include!("properties.rs");

#[cfg(not(feature = "native"))]
fn main() {
    // never run: keeps the entries alive in the linked bitcode
    let a = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table() {
        if n == a {
            f()
        }
    }
}

/// Native replay: `vph ENTRY FILE`, FILE holds one assignment per line (space separated values).
#[cfg(feature = "native")]
fn main() {
    use rt::native::{Pruned, State, ST};
    let a: Vec<String> = std::env::args().collect();
    let f = table().into_iter().find(|(n, _)| *n == a[1]).expect("no such entry").1;
    std::panic::set_hook(Box::new(|_| ()));
    let text = std::fs::read_to_string(&a[2]).unwrap();
    for line in text.lines() {
        let vals: Vec<u64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        ST.with(|s| *s.borrow_mut() = State { vals, ..State::default() });
        let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let m2 = msg.clone();
        std::panic::set_hook(Box::new(move |i| *m2.lock().unwrap() = i.to_string()));
        let r = std::panic::catch_unwind(|| f());
        let (mut panic, mut pruned) = (false, false);
        if let Err(e) = r {
            if e.is::<Pruned>() {
                pruned = true
            } else {
                panic = true
            }
        }
        ST.with(|s| {
            let s = s.borrow();
            let msg = if panic { msg.lock().unwrap().clone() } else { String::new() };
            println!(
                "{{\"obs\":{:?},\"failed\":{:?},\"panic\":{},\"pruned\":{},\"short\":{},\"used\":{},\"msg\":{:?}}}",
                s.obs, s.failed, panic, pruned, s.short, s.next,
                msg.chars().map(|c| if c.is_ascii_graphic() && c != '"' && c != '\\' { c } else { ' ' }).collect::<String>()
            );
        });
    }
}

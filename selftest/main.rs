include!("lib.rs");
fn main() { let mut bad = 0; for (n, f) in ALL { if !f() { println!("native false: {n}"); bad += 1; } } std::process::exit(if bad > 0 { 1 } else { 0 }); }

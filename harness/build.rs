// The table of the harnesses, for native replay.
fn main() {
    let mut names = vec![];
    for f in ["obj", "mtl", "both", "text"] {
        let p = format!("src/{}.rs", f);
        println!("cargo:rerun-if-changed={}", p);
        for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("pub fn h_c") { names.push((f, format!("h_c{}", r.split('(').next().unwrap()))); }
        }
    }
    let rows: Vec<String> = names.iter().map(|(m, n)| format!("(\"{n}\", {m}::{n} as fn())")).collect();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(out + "/table.rs", format!("pub static TABLE: &[(&str, fn())] = &[{}];", rows.join(","))).unwrap();
}

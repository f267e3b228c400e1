//! replay HARNESS CHOICES...: runs one harness natively on a recorded choice sequence.
use harness::sym::imp::REC;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match harness::TABLE.iter().find(|(n, _)| *n == a[1]) { Some((_, f)) => *f, None => { eprintln!("no harness {}", a[1]); std::process::exit(6) } };
    REC.with(|r| r.borrow_mut().choices = a[2..].iter().map(|s| s.parse().unwrap()).collect());
    f();
    REC.with(|r| {
        let r = r.borrow();
        println!("OBS {}", r.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        println!("COVERS {}", r.covers);
        println!("UNUSED {}", r.choices.len() as i64 - r.pos as i64);
    });
    println!("HELD");
}

//! `replay run PROP HARNESS HEX [SEED]`: runs a harness natively on recorded values, then, if they do
//! not fail, on others near them. Prints the failing values.
//! `replay list PROP`: the names of the harnesses of a property.
//! `replay validate PROP SEED`: runs every harness natively on values of its own, and compares with what
//! the harness states.
//! `replay file FILE`: runs a recorded counterexample; exit 1 if it fails.
#[cfg(not(kani))]
use bmc::*;

#[cfg(not(kani))]
fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}
#[cfg(not(kani))]
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[0] == "list" {
        for h in table(&a[1]) {
            println!("{}{}", h.name, if h.must_panic { " panics" } else { "" });
        }
        return;
    }
    if a[0] == "validate" {
        let mut x: u64 = a[2].parse::<u64>().unwrap_or(1) ^ 0x9e3779b97f4a7c15;
        let mut next = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for h in table(&a[1]) {
            let (mut ok, mut sample) = (0, String::new());
            for _ in 0..4000 {
                if ok == 5 {
                    break;
                }
                let mut v = vec![];
                let small = [2, 3, 6, 40][next() as usize % 4];
                let width = [1, 2, 4, 8, 8, 8][next() as usize % 6];
                for _ in 0..40 {
                    let word = match next() % 4 {
                        0 => next(),
                        1 => (f32::to_bits((next() % 30) as f32 / 10.0 - 0.5)) as u64,
                        _ => next() % small,
                    };
                    v.extend_from_slice(&word.to_le_bytes()[..width]);
                }
                match run(h, v.clone()) {
                    Outcome::Holds => {
                        ok += 1;
                        sample = hex(&v[..24]);
                    }
                    Outcome::Rejected => {}
                    Outcome::Fails(m) => {
                        println!("{} DISAGREES {} {}", h.name, hex(&v), m);
                        break;
                    }
                }
            }
            println!("{} {} {}", h.name, ok, sample);
        }
        return;
    }
    if a[0] == "file" {
        let text = std::fs::read_to_string(&a[1]).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        let (p, n, v) = (get("property "), get("harness "), unhex(&get("values ")));
        let h = table(&p.to_lowercase()).iter().find(|h| h.name == n).expect("harness");
        println!("harness {n}, values {}", hex(&v));
        match run(h, v) {
            Outcome::Fails(m) => {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
            o => println!("does not fail ({o:?})"),
        }
        return;
    }
    let h = table(&a[1]).iter().find(|h| h.name == a[2]).expect("harness");
    let base = unhex(&a[3]);
    let mut x: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1) ^ 0x9e3779b97f4a7c15;
    let mut next = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    if let Outcome::Fails(m) = run(h, base.clone()) {
        println!("{}", hex(&base));
        println!("{m}");
        std::process::exit(1);
    }
    // functions of one number: values of every size, a dense grid, and the borders of the formats
    if base.len() == 4 || base.len() == 8 {
        let mut grid: Vec<f64> = vec![0.0, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, f64::MAX, f32::MAX as f64];
        grid.extend((1..8192).map(|k| k as f64 / 8.0));
        grid.extend((1..1024).map(|k| k as f64 / 512.0));
        for e in -1074..1024 {
            for m in [1.0, 1.0 + f64::EPSILON, 1.0 + f32::EPSILON as f64, 1.5, 2.0 - f64::EPSILON] {
                grid.push(m * 2f64.powi(e));
            }
        }
        for g in grid.into_iter().flat_map(|x| [x, -x]) {
            let v = if base.len() == 4 { (g as f32).to_le_bytes().to_vec() } else { g.to_le_bytes().to_vec() };
            if let Outcome::Fails(m) = run(h, v.clone()) {
                println!("{}", hex(&v));
                println!("{m}");
                std::process::exit(1);
            }
        }
    }
    let f32s = [0.0f32, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.3, 10.0, -10.0, 1e30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-40];
    for round in 0..20_000 {
        let mut v = base.clone();
        if round > 0 && v.is_empty() {
            break;
        }
        if round > 0 {
            match next() % 3 {
                // some bytes changed
                0 => {
                    for b in v.iter_mut() {
                        if next() % 4 == 0 {
                            *b = next() as u8;
                        }
                    }
                }
                // ordinary numbers
                1 if v.len() % 8 == 0 && next() % 2 == 0 => {
                    for c in v.chunks_mut(8) {
                        let f = f32s[next() as usize % f32s.len()] as f64 * if next() % 2 == 0 { 1.0 } else { (next() % 100) as f64 / 7.0 };
                        c.copy_from_slice(&f.to_le_bytes());
                    }
                }
                1 if v.len() % 4 == 0 => {
                    for c in v.chunks_mut(4) {
                        let f = f32s[next() as usize % f32s.len()] * if next() % 2 == 0 { 1.0 } else { (next() % 100) as f32 / 7.0 };
                        c.copy_from_slice(&f.to_le_bytes());
                    }
                }
                _ => {
                    for b in v.iter_mut() {
                        *b = next() as u8;
                    }
                }
            }
        }
        if let Outcome::Fails(m) = run(h, v.clone()) {
            println!("{}", hex(&v));
            println!("{m}");
            std::process::exit(1);
        }
    }
    println!("no failure");
}

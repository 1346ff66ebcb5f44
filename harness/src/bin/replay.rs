//! Reads lines "name f0,f1,.. i0,i1,.." (doubles as hex bit patterns), calls the entry natively and
//! prints "ok f.. i.." with doubles as hex, or "panic".  State persists between lines of one process.
use std::io::{BufRead, Write};
use tofas_harness::*;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut w = line.split(' ');
        let name = w.next().unwrap();
        let mut f = [0.0f64; 40];
        let mut i = [0i64; 8];
        for (k, s) in w.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).enumerate() {
            f[k] = f64::from_bits(u64::from_str_radix(s, 16).unwrap());
        }
        for (k, s) in w.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).enumerate() {
            i[k] = s.parse().unwrap();
        }
        let r = std::panic::catch_unwind(|| {
            let mut o = [0.0f64; 64];
            let mut p = [0i64; 8];
            take_text();
            lookup(name).expect("entry")(&f, &i, &mut o, &mut p);
            (o, p)
        });
        match r {
            Err(_) => writeln!(out, "panic").unwrap(),
            Ok((o, p)) => {
                let a: Vec<String> = o.iter().map(|x| format!("{:x}", x.to_bits())).collect();
                let b: Vec<String> = p.iter().map(|x| x.to_string()).collect();
                let t: Vec<String> = take_text().bytes().map(|x| format!("{:02x}", x)).collect();
                let t = t.concat();
                writeln!(out, "ok {} {}{}{}", a.join(","), b.join(","), if t.is_empty() { "" } else { " " }, t).unwrap()
            }
        }
        out.flush().unwrap();
    }
}

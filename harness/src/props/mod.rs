//! The monitored properties.
use crate::core::{Case, Prop};
use crate::gen::Gen;

pub mod bmp;
mod builds;
mod cost;
mod cross;
mod dmp;
mod laws;
mod pure;
mod san;
mod simple;
mod values;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![];
    v.push(Box::new(cross::C01));
    v.push(Box::new(pure::C02));
    simple::add(&mut v);
    v.push(Box::new(dmp::C14));
    v.push(Box::new(dmp::C15));
    v.push(Box::new(bmp::C16));
    v.push(Box::new(bmp::C17));
    v.push(Box::new(bmp::C18));
    v.push(Box::new(bmp::C19));
    v.push(Box::new(cross::C20));
    v.push(Box::new(cross::C21));
    v.push(Box::new(cross::C22));
    v.push(Box::new(cross::C23));
    v.push(Box::new(values::C24));
    v.push(Box::new(values::C25));
    v.push(Box::new(values::C26));
    v.push(Box::new(values::C27));
    v.push(Box::new(cost::C28));
    v.push(Box::new(san::C29));
    v.push(Box::new(values::C30));
    v.push(Box::new(laws::C31));
    v.push(Box::new(builds::C32));
    v
}
pub fn get(id: &str) -> Option<Box<dyn Prop>> {
    all().into_iter().find(|p| p.id() == id)
}
pub fn ids() -> Vec<String> {
    all().iter().map(|p| p.id().to_string()).collect()
}
pub use pure::child;

/// Every string of `len` characters of `alpha`, shared between workers. False when told to stop.
pub fn all_strings(alpha: &[char], len: usize, w: usize, n: usize, f: &mut dyn FnMut(String) -> bool) -> bool {
    let total = (alpha.len() as u64).pow(len as u32);
    let mut i = w as u64;
    while i < total {
        let mut x = i;
        let mut s = String::with_capacity(len);
        for _ in 0..len {
            s.push(alpha[(x % alpha.len() as u64) as usize]);
            x /= alpha.len() as u64;
        }
        if !f(s) {
            return false;
        }
        i += n as u64;
    }
    true
}

/// prefix + literal of the source + suffix, shared between workers.
pub fn contexts(g: &Gen, pre: &[String], post: &[String], w: usize, n: usize, f: &mut dyn FnMut(String) -> bool) -> bool {
    let mut i = 0;
    for t in &g.tokens {
        for p in pre {
            for q in post {
                i += 1;
                if i % n == w && !f(format!("{p}{t}{q}")) {
                    return false;
                }
            }
        }
    }
    true
}
pub fn strings(alpha: &str, max: usize) -> Vec<String> {
    let a: Vec<char> = alpha.chars().collect();
    let mut v = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = v.len();
        for i in from..to {
            for c in &a {
                let s = format!("{}{c}", v[i]);
                v.push(s);
            }
        }
        from = to;
    }
    v
}
pub fn case_text(k: &str, s: String, n: &[i64]) -> Case {
    Case::t(k, vec![s], n.to_vec())
}

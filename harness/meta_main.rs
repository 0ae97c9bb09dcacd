// Random metadata and random questions against hooq_helpers::HooqMeta::get_binding (C18).
// usage: meta SEED ROUNDS; prints one line per failing question, then "run N distinct M".
use hooq_helpers::{BindingPayload, HooqMeta};
use std::any::Any;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

#[derive(Debug, Clone, PartialEq)]
struct Own(u8);
#[derive(Debug, Clone, PartialEq)]
struct Other(u8);

const TYPES: &[&str] = &["i32", "u32", "i64", "f64", "bool", "char", "()", "&str", "String", "Vec<u8>", "Vec<i32>", "Option<i32>", "Option<u32>", "(i32, i32)", "Own", "Other",
    "Rc<i32>", "Rc<dyn Any>", "Box<str>", "[i32; 2]", "fn(i32) -> i32", "u8", "usize", "isize", "Result<i32, String>"];

fn inc(x: i32) -> i32 { x + 1 }

fn make(t: usize, r: &mut Rng) -> Rc<dyn Any> {
    let n = r.below(5) as i32;
    match t {
        0 => Rc::new(n), 1 => Rc::new(n as u32), 2 => Rc::new(n as i64), 3 => Rc::new(n as f64), 4 => Rc::new(n % 2 == 0), 5 => Rc::new('c'), 6 => Rc::new(()),
        7 => Rc::new("text"), 8 => Rc::new(String::from("text")), 9 => Rc::new(vec![n as u8]), 10 => Rc::new(vec![n]), 11 => Rc::new(Some(n)), 12 => Rc::new(Some(n as u32)),
        13 => Rc::new((n, n)), 14 => Rc::new(Own(n as u8)), 15 => Rc::new(Other(n as u8)), 16 => Rc::new(Rc::new(n)), 17 => Rc::new(Rc::new(n) as Rc<dyn Any>),
        18 => Rc::new(String::from("x").into_boxed_str()), 19 => Rc::new([n, n]), 20 => Rc::new(inc as fn(i32) -> i32), 21 => Rc::new(n as u8), 22 => Rc::new(n as usize),
        23 => Rc::new(n as isize), _ => Rc::new(Ok::<i32, String>(n)),
    }
}

fn ask_as<T: 'static>(m: &HooqMeta, key: &str) -> Option<(*const (), usize)> {
    let before = m.bindings.get(key).map(|b| Rc::strong_count(&b.value));
    let r: Option<Rc<T>> = m.get_binding::<T>(key);
    r.map(|x| {
        let grew = match before { Some(b) => Rc::strong_count(&x) - b, None => 99 };
        (Rc::as_ptr(&x) as *const (), grew)
    })
}

fn ask(t: usize, m: &HooqMeta, k: &str) -> Option<(*const (), usize)> {
    match t {
        0 => ask_as::<i32>(m, k), 1 => ask_as::<u32>(m, k), 2 => ask_as::<i64>(m, k), 3 => ask_as::<f64>(m, k), 4 => ask_as::<bool>(m, k), 5 => ask_as::<char>(m, k),
        6 => ask_as::<()>(m, k), 7 => ask_as::<&'static str>(m, k), 8 => ask_as::<String>(m, k), 9 => ask_as::<Vec<u8>>(m, k), 10 => ask_as::<Vec<i32>>(m, k),
        11 => ask_as::<Option<i32>>(m, k), 12 => ask_as::<Option<u32>>(m, k), 13 => ask_as::<(i32, i32)>(m, k), 14 => ask_as::<Own>(m, k), 15 => ask_as::<Other>(m, k),
        16 => ask_as::<Rc<i32>>(m, k), 17 => ask_as::<Rc<dyn Any>>(m, k), 18 => ask_as::<Box<str>>(m, k), 19 => ask_as::<[i32; 2]>(m, k), 20 => ask_as::<fn(i32) -> i32>(m, k),
        21 => ask_as::<u8>(m, k), 22 => ask_as::<usize>(m, k), 23 => ask_as::<isize>(m, k), _ => ask_as::<Result<i32, String>>(m, k),
    }
}

const KEYS: &[&str] = &["", "a", "A", "ab", "abc", "b", "a ", " a", "$a", "$ab", "a_b", "a-b", "a.b", "a::b", "tag", "tags", "Tag", "TAG", "level", "my_binding", "my-binding", "r#type", "type",
    "名前", "é", "e\u{301}", "a\0", "line", "expr", "0", "00", "a\n", "\"a\"", "'a'", "_a", "a_", "bindings", "binding", "long_name_of_a_binding_number_one", "long_name_of_a_binding_number_two"];

fn key(r: &mut Rng) -> String {
    let k = KEYS[r.below(KEYS.len())];
    match r.below(12) {
        0 => k.to_uppercase(), 1 => format!("{k}{}", KEYS[r.below(KEYS.len())]), 2 => format!("${k}"), 3 => format!(" {k}"), 4 => format!("{k} "), 5 => k.chars().rev().collect(),
        _ => k.to_string(),
    }
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut r = Rng(a[0]);
    let (mut run, mut seen, mut bad) = (0usize, HashSet::new(), 0);
    for _ in 0..a[1] {
        let mut bindings = HashMap::new();
        let mut model: Vec<(String, usize, Rc<dyn Any>)> = vec![];
        for _ in 0..[0, 1, 1, 2, 3, 5, 9, 40][r.below(8)] {
            let (k, t) = (key(&mut r), r.below(TYPES.len()));
            let v = make(t, &mut r);
            bindings.insert(k.clone(), BindingPayload { expr: KEYS[r.below(KEYS.len())].into(), value: Rc::clone(&v) });
            model.retain(|x| x.0 != k);
            model.push((k, t, v));
        }
        let m = HooqMeta { line: r.below(99), column: r.below(99), path: "p", file: "f", source_str: "a", count: "1st", bindings };
        for _ in 0..40 {
            let (k, t) = if !model.is_empty() && r.below(3) > 0 {
                let x = &model[r.below(model.len())];
                let k = match r.below(8) { 0 => format!("{} ", x.0), 1 => format!("${}", x.0), 2 => x.0.to_lowercase(), _ => x.0.clone() };
                (k, if r.below(3) > 0 { x.1 } else { r.below(TYPES.len()) })
            } else { (key(&mut r), r.below(TYPES.len())) };
            let want = model.iter().find(|x| x.0 == k && x.1 == t);
            let names = |m: &HooqMeta| { let mut v: Vec<String> = m.bindings.iter().map(|(k, b)| format!("{k:?}={:?}@{:?}x{}", b.expr, Rc::as_ptr(&b.value) as *const (), Rc::strong_count(&b.value))).collect(); v.sort(); v };
            let before = names(&m);
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(t, &m, &k)));
            run += 1;
            seen.insert((k.clone(), t, want.is_some()));
            let why = match (&got, want) {
                (Err(_), _) => Some("panicked"),
                (Ok(None), Some(_)) => Some("None for a binding of that name and type"),
                (Ok(Some(_)), None) => Some("a value although no binding has that name and type"),
                (Ok(Some((p, _))), Some(w)) if *p != Rc::as_ptr(&w.2) as *const () => Some("not the stored value itself"),
                (Ok(Some((_, g))), Some(_)) if *g != 1 => Some("the value is not shared"),
                _ if names(&m) != before => Some("the metadata changed"),
                _ => None,
            };
            if let Some(why) = why {
                bad += 1;
                if bad <= 20 {
                    let b: Vec<String> = model.iter().map(|x| format!("{:?}: {}", x.0, TYPES[x.1])).collect();
                    println!("FAIL\x1f{why}\x1fget_binding::<{}>({k:?})\x1f{}", TYPES[t], b.join(", "));
                }
            }
        }
    }
    println!("run {run} distinct {}", seen.len());
}

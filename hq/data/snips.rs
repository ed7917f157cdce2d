//// parse-into-box
@H pub fn f() -> Result<i32, Box<dyn std::error::Error>> { let a = "12".parse::<i32>()?; let b: i32 = if bit(0) { "x" } else { "3" }.parse()?; Ok(a + b) }
pub fn run() { log(format!("{:?}", f().map_err(|e| e.to_string()))) }
//// from-conversion
#[derive(Debug)] pub enum Er { A(std::num::ParseIntError), B(std::fmt::Error), C(E) }
impl From<std::num::ParseIntError> for Er { fn from(e: std::num::ParseIntError) -> Er { log("from A".into()); Er::A(e) } }
impl From<std::fmt::Error> for Er { fn from(e: std::fmt::Error) -> Er { Er::B(e) } }
impl From<E> for Er { fn from(e: E) -> Er { log("from C".into()); Er::C(e) } }
@H pub fn f() -> Result<(), Er> { use std::fmt::Write; let mut s = String::new(); write!(s, "{}", 1)?; let n: i32 = if bit(0) { "z" } else { "4" }.parse()?; p(1)?; log(s); Err(std::fmt::Error)?; Ok(()) }
pub fn run() { log(format!("{:?}", f())) }
//// option-borrow
use std::collections::HashMap;
@H pub fn f<'a>(m: &'a HashMap<&'static str, Vec<i32>>, k: &str) -> Option<&'a i32> { let v = m.get(k)?; let x = v.iter().find(|x| **x > 1)?; v.first()?; Some(x) }
pub fn run() { let m = HashMap::from([("a", vec![1, 2]), ("b", vec![])]); for k in ["a", "b", "c"] { log(format!("{:?}", f(&m, k))) } }
//// iter-next-loop
@H pub fn f(n: i32) -> Option<i32> { let mut it = 0..n; let mut s = 0; loop { s += it.next()? + it.next()?; if s > 10 { return Some(s) } } }
pub fn run() { for n in 0..8 { log(format!("{:?}", f(n))) } }
//// mut-borrow
@H pub fn f(v: &mut Vec<i32>) -> Option<i32> { *v.iter_mut().next()? += 5; let l = v.last_mut()?; *l *= 2; let x = v.pop()?; v.push(x + 1); v.get(1).copied()?; Some(v.len() as i32) }
pub fn run() { for mut v in [vec![], vec![1], vec![1, 2]] { let r = f(&mut v); log(format!("{r:?} {v:?}")) } }
//// take-replace
@H pub fn f(o: &mut Option<String>) -> Option<usize> { let s = o.take()?; let n = s.len(); o.replace(s + "x")
    .map(|s| s.len())
    .or(Some(n))?; o.as_deref_mut()?.make_ascii_uppercase(); Some(n) }
pub fn run() { for mut o in [None, Some("ab".to_string())] { let r = f(&mut o); log(format!("{r:?} {o:?}")) } }
//// refcell-guard
use std::cell::RefCell;
@H pub fn f(c: &RefCell<Vec<i32>>) -> Option<i32> { let a = c.borrow().get(0).copied()?; c.borrow_mut().push(a); let b = *c.borrow().last()?; Some(a + b) }
pub fn run() { for v in [vec![], vec![3]] { let c = RefCell::new(v); log(format!("{:?} {:?}", f(&c), c)) } }
//// guard-in-statement
@H pub fn f() -> Result<i32, E> { D(7).r(0)?; let x = D(8).r(1)?; { D(9).r(2)?; log("in".into()); } let _y = (D(10), p(3)?); match D(11).r(4)? { z => log(format!("z{z}")) } if D(12).r(5)? > 0 { log("then".into()) } D(13).r(6) }
pub fn run() { log(format!("{:?}", f())) }
//// guard-locals
@H pub fn f() -> Result<i32, E> { let a = D(1); p(0)?; let _ = D(2); let b = D(3); if bit(1) { let c = D(4); return Err(E(9)); } { let d = D(5); p(2)?; } drop(a); Err(E(p(3)?)) }
pub fn run() { log(format!("{:?}", f())) }
//// moved-values
@H pub fn f(r: Result<String, E>, b: Box<Result<Vec<String>, E>>) -> Result<String, E> { let s = r?; let v = (*b)?; Ok::<String, E>(s.clone())?; let c = move || -> Result<String, E> { Ok::<_, E>(s)? ; Err(E(2)) }; log(format!("{v:?}")); c() }
pub fn run() { for i in 0..2 { log(format!("{:?}", f(if bit(0) { Err(E(1)) } else { Ok("s".into()) }, Box::new(if bit(1) { Err(E(2)) } else { Ok(vec!["t".into()]) })))) } }
//// methods
struct P { n: i32, f: fn(u32) -> Result<i32, E> }
@H impl P {
    fn new(k: u32) -> Result<Self, E> { Ok(Self { n: p(k)?, f: p }) }
    fn bump(&mut self) -> Result<&mut Self, E> { self.n += (self.f)(1)?; Ok(self) }
    fn get(&self) -> Result<&i32, E> { if self.n > 100 { return Err(E(self.n)); } Ok(&self.n) }
    fn done(self) -> Result<i32, E> { Ok(*self.get()? + p(2)?) }
    const K: fn() -> Result<i32, E> = || { p(3)?; Err(E(1)) };
}
pub fn run() { log(format!("{:?}", P::new(0).and_then(|mut x| { x.bump()?.bump()?; x.done() }))); log(format!("{:?}", (P::K)())) }
//// trait-default
@H trait Tr { fn a(&self) -> Result<i32, E>; fn b(&self) -> Result<i32, E> { let x = self.a()?; if x == 0 { return Err(E(x)) } self.a() } }
struct Z; @H impl Tr for Z { fn a(&self) -> Result<i32, E> { Ok(p(0)? + 1) } }
pub fn run() { log(format!("{:?}", Z.b())) }
//// generics
@H pub fn f<T: std::str::FromStr<Err = X>, X>(s: &str) -> Result<(T, T), X> where X: std::fmt::Debug { let a: T = s.parse()?; Ok((a, s.trim().parse::<T>()?)) }
pub fn run() { log(format!("{:?}", f::<i32, _>("5"))); log(format!("{:?}", f::<bool, _>("tru"))); log(format!("{:?}", f::<f64, _>(" 1"))) }
//// const-generic
@H pub fn f<const N: usize>(a: [Result<i32, E>; N]) -> Result<[i32; N], E> { let mut o = [0; N]; for (i, r) in a.into_iter().enumerate() { o[i] = r?; } Ok(o) }
pub fn run() { log(format!("{:?}", f([p(0), p(1), p(2)]))); log(format!("{:?}", f([]))) }
//// collect
@H pub fn f() -> Result<i32, E> { let v = (0..3).map(p).collect::<Result<Vec<_>, _>>()?; let s: i32 = v.iter().map(|x| { q(3, *x) }).sum::<Result<i32, E>>()?; let t = v.into_iter().try_fold(s, |a, x| { let y = q(4, a)?; q(5, x + y) })?; Ok(t) }
pub fn run() { log(format!("{:?}", f())) }
//// chain
struct C(i32); impl C { fn c(self, k: u32) -> Result<C, E> { q(k, self.0 + 1).map(C) } }
@H pub fn f() -> Result<i32, E> { Ok(C(0).c(0)?.c(1)?.c(2)?.0 + C(C(5).c(3)?.0).c(4)?.0) }
pub fn run() { log(format!("{:?}", f())) }
//// impl-trait
@H pub fn f<'a>(v: &'a [i32]) -> Result<impl Iterator<Item = i32> + 'a, E> { p(0)?; if v.is_empty() { return Err(E(0)); } Ok(v.iter().map(|x| x + 1)) }
pub fn run() { for v in [&[][..], &[1, 2]] { log(format!("{:?}", f(v).map(|i| i.collect::<Vec<_>>()))) } }
//// boxed-dyn
@H pub fn f() -> Result<Box<dyn Fn(i32) -> Result<i32, E>>, E> { let k = p(0)?; Ok(Box::new(move |x| { let y = q(1, x)?; if y > 1 { return Err(E(y)); } Ok(y + k) })) }
pub fn run() { match f() { Ok(g) => { log(format!("{:?} {:?}", g(1), g(2))) } Err(e) => log(format!("{e:?}")) } }
//// option-of-result
@H pub fn f(x: Option<Result<i32, E>>) -> Result<Option<i32>, E> { let y = x.transpose()?; let z = y.map(|v| q(0, v)).transpose()?; Ok(z) }
pub fn run() { for x in [None, Some(Ok(1)), Some(Err(E(2)))] { log(format!("{:?}", f(x))) } }
//// mixed-option-result
@H pub fn f(s: &str) -> Option<i32> { let (a, b) = s.split_once('=')?; let n: i32 = b.parse().ok()?; let r = (|| -> Result<i32, E> { let x = q(0, n)?; Err(E(x)) })(); r.or_else(|e| q(1, e.0)).ok()?; a.chars().next().map(|c| c as i32 + n) }
pub fn run() { for s in ["", "k=", "=4", "k=4"] { log(format!("{s} {:?}", f(s))) } }
//// async-flow
async fn leaf(k: u32) -> Result<i32, E> { p(k) }
@H pub async fn f() -> Result<i32, E> { let a = leaf(0).await?; let b = async { leaf(1).await?; Ok::<i32, E>(leaf(2).await? + a) }.await?; let g = async |x: i32| -> Result<i32, E> { if x > 3 { return Err(E(x)) } q(3, x) }; let c = g(b).await?; Err(E(a + b + c)) }
pub fn run() { log(format!("{:?}", block_on(f()))) }
//// slice-pattern
@H pub fn f(v: &[i32]) -> Option<i32> { let [a, rest @ ..] = v else { return None; }; let (x, y) = rest.split_first().map(|(x, y)| (*x, y.len() as i32))?; Some(match (x, y) { (0, _) => rest.get(1).copied()?, (n, 0) => n, (n, m) if rest.get(2).copied()? > n => m, _ => *a }) }
pub fn run() { for v in [&[][..], &[1], &[1, 0], &[1, 0, 5], &[1, 2], &[1, 2, 3], &[1, 2, 3, 4], &[1, 9, 3, 4]] { log(format!("{:?}", f(v))) } }
//// nested-fn
@H pub fn f() -> Result<i32, E> { fn a(n: i32) -> Result<i32, E> { if n == 0 { Err(E(0)) } else { a(n - 1).map_err(|e| E(e.0 + 1)) } } let x = a(2).or_else(|e| q(0, e.0))?; struct L; impl L { fn m() -> Result<i32, E> { p(1)?; Err(E(4)) } } L::m().or_else(|e| -> Result<i32, E> { q(2, x)?; p(3) }) }
pub fn run() { log(format!("{:?}", f())) }
//// shadowing
@H pub fn f(e: i32, path: i32) -> Result<i32, E> { let line = q(0, e)?; let col = q(1, path + line)?; let expr = q(2, line * col)?; let ok = q(3, e + expr)?; let level = q(4, ok)?; if level > 20 { return Err(E(e + path)) } q(5, e + path + line + col + expr + ok + level) }
pub fn run() { log(format!("{:?} {:?}", f(1, 2), f(3, 0))) }
//// shadowing-closures
@H pub fn f(e: Result<i32, E>, r: i32) -> Result<i32, E> { let expr = |e: i32| -> Result<i32, E> { let line = q(0, e)?; q(1, line + r) }; let value = e?; let self_ = expr(value)?; match expr(self_) { Ok(e) => Err(E(e)), Err(e) => Err(E(e.0 + 50)) } }
pub fn run() { log(format!("{:?} {:?}", f(Ok(1), 2), f(Err(E(3)), 0))) }
//// labeled
@H pub fn f() -> Result<i32, E> { let mut n = 0; 'a: for i in 0..3 { 'b: loop { n += 1; match q(0, n) { Ok(x) if x % 2 == 0 => continue 'a, Ok(_) => {} Err(e) => break 'b } if n > 4 { break 'a; } } if q(1, n)? > 3 { return Err(E(n)); } } let v = 'c: { if n > 2 { break 'c q(2, n)?; } p(3)? }; Ok(v + loop { n += 1; if n > 6 { break p(4)?; } }) }
pub fn run() { log(format!("{:?}", f())) }
//// let-chains
@H pub fn f(o: Option<i32>) -> Result<i32, E> { if let Some(x) = o && q(0, x)? > 1 && let Ok(y) = q(1, x) { return Err(E(y)); } let Some(z) = o else { return p(2); }; while let Ok(w) = q(3, z) && w < 0 { break } Ok(z) }
pub fn run() { for o in [None, Some(1), Some(2), Some(-1)] { log(format!("{:?}", f(o))) } }
//// assignments
@H pub fn f() -> Result<i32, E> { let mut a = [0; 3]; let mut i = 0; a[{ i += 1; i }] = p(0)? + { i += 1; 10 }; a[p(1)? as usize] += p(2)?; let (mut x, y); (x, y) = (p(3)?, a[1]); x -= y; *&mut x += q(4, x)?; a[0] = x; Err(E(a.iter().sum::<i32>() + i as i32)) }
pub fn run() { log(format!("{:?}", f())) }
//// short-circuit
@H pub fn f() -> Result<bool, E> { let a = p(0)? == 0 && p(1)? == 1 || p(2)? == 9; let b = a & (p(3)? == 3) | (p(4)? == 5); Ok(!(a && b) && p(5)? > 0) }
pub fn run() { log(format!("{:?}", f())) }
//// macros
macro_rules! tri { ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Err(e) } } }
macro_rules! mk { ($n:ident, $b:expr) => { pub fn $n() -> Result<i32, E> { $b } } }
@H pub fn f() -> Result<i32, E> { let a = tri!(p(0)); let v = vec![p(1)?, a, p(2)?]; assert!(v.len() == 3, "{}", p(3)?); let s = format!("{:?}{}", v, q(4, 7)?); log(s); matches!(p(5)?, 5).then(|| 1).ok_or(E(8)) }
pub fn run() { log(format!("{:?}", f())) }
//// static-items
@H mod inner { use super::*; pub static S: fn(u32) -> Result<i32, E> = |k| { let x = p(k)?; Err(E(x + 1)) }; pub const C: fn() -> Result<i32, E> = || -> Result<i32, E> { p(1)?; p(2) }; pub mod deep { use super::*; pub fn g() -> Result<i32, E> { S(0).or_else(|e| q(3, e.0)) } } }
pub fn run() { log(format!("{:?} {:?} {:?}", (inner::S)(0), (inner::C)(), inner::deep::g())) }
//// references
@H pub fn f<'a>(r: &'a Result<i32, E>, o: &'a mut Option<i32>) -> Result<&'a i32, &'a E> { let x = r.as_ref()?; if let Some(v) = o.as_mut() { *v += x; } let y = o.as_ref().ok_or_else(|| r.as_ref().unwrap_err_or()).or(Ok::<&i32, &E>(x))?; if *y > 10 { return Err(&E(1)); } Ok(y) }
trait U { fn unwrap_err_or(&self) -> &'static E; } impl U for Result<&i32, &E> { fn unwrap_err_or(&self) -> &'static E { &E(5) } }
pub fn run() { for (r, mut o) in [(Ok(1), None), (Ok(2), Some(3)), (Ok(9), Some(9)), (Err(E(4)), None)] { log(format!("{:?}", f(&r, &mut o))); log(format!("{o:?}")) } }
//// pin-unsafe
@H pub unsafe fn f(p0: *const Result<i32, E>) -> Result<i32, E> { let r = unsafe { (*p0)? }; let x = unsafe { *(&raw const r) }; Ok(unsafe { (*p0).clone() }? + x) }
pub fn run() { let r = p(0); log(format!("{:?}", unsafe { f(&r) })) }
//// unit-tail
@H pub fn f() -> Result<(), E> { p(0)?; if p(1)? == 1 { p(2)?; } else { return Ok(()); } for k in 3..5 { p(k)?; } match p(5) { Ok(_) => Ok(()), Err(e) => { log("bad".into()); Err(e) } } }
pub fn run() { log(format!("{:?}", f())) }
//// recursion
@H pub fn f(n: u32) -> Result<u32, E> { if n == 0 { p(0)?; return Ok(1); } let a = f(n - 1)?; if n == 2 { p(1)?; } Ok(a * n + if n == 3 { f(0)? } else { 0 }) }
pub fn run() { log(format!("{:?}", f(3))) }
//// panics
@H pub fn f() -> Result<i32, E> { let d = D(3); let r = std::panic::catch_unwind(|| -> Result<i32, E> { let d = D(4); p(0)?; if bit(1) { panic!() } p(2) }); log(format!("{}", r.is_err())); r.map_err(|_| E(77))? }
pub fn run() { std::panic::set_hook(Box::new(|_| {})); log(format!("{:?}", f())); let _ = std::panic::take_hook(); }
//// unhooked-neighbours
@H pub fn f() -> Result<i32, E> { #[allow(unused)] let a = p(0)?; #[cfg(any())] let a = p(1)?; #[cfg(all())] #[allow(clippy::all)] let c = { p(2)? }; let s = S { #[cfg(all())] x: p(3)?, #[cfg(any())] x: p(4)?, y: a + c }; Err(E(s.x + s.y)) }
pub fn run() { log(format!("{:?}", f())) }
//// numbers
@H pub fn f(s: &str) -> Result<u8, std::num::TryFromIntError> { let n: i64 = s.len() as i64 * 200; let a: u8 = n.try_into()?; let b = u8::try_from(n + 1)?; Ok(a.max(b)) }
pub fn run() { for s in ["", "a", "ab"] { log(format!("{:?}", f(s))) } }
//// io-strings
@H pub fn f(b: &[u8]) -> Result<String, Box<dyn std::error::Error + Send + Sync>> { use std::io::{BufRead, Read, Write}; let mut r = std::io::BufReader::new(b); let mut l = String::new(); r.read_line(&mut l)?; let mut w = Vec::new(); writeln!(w, "{}", l.trim_end())?; w.flush()?; let s = String::from_utf8(w)?; if s.len() < 3 { Err("short")?; } if s.len() > 5 { return Err(s.into()); } Ok(s) }
pub fn run() { for b in [&b""[..], b"abc\nd", b"\xff\xff\xff\n", b"abcdefg"] { log(format!("{:?}", f(b).map_err(|e| e.to_string().replace(",", ";")))) } }
//// controlflow-arith
@H pub fn f(a: i32, b: i32) -> Option<i32> { let x = a.checked_add(b)?.checked_mul(2)?; let y = (-x).checked_sub(1)? + !x.checked_div(b)?; Some(-y.checked_abs()?) }
pub fn run() { for (a, b) in [(1, 2), (i32::MAX, 1), (1, 0), (i32::MAX / 2, 0), (-4, 2)] { log(format!("{:?}", f(a, b))) } }

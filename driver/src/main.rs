// Replay / bounded-search driver: runs one public operation of the real crate per input line
// and prints what happened.  No property logic lives here; the oracle is in lib/oracle.py.
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

// A binary or human-readable format that only records what it is asked to write, and keeps bytes and sequences apart.
mod rec {
    use serde::ser::{Error as _, Impossible, Serialize, Serializer};
    #[derive(Debug)] pub struct E(pub String);
    impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for E {}
    impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(m: T) -> E { E(m.to_string()) } }
    pub struct Rec(pub bool);
    type I = Impossible<String, E>;
    macro_rules! no { ($($f:ident($($a:ty),*) -> $r:ty;)*) => { $(fn $f(self $(, _: $a)*) -> Result<$r, E> { Err(E::custom(stringify!($f))) })* } }
    impl Serializer for Rec {
        type Ok = String; type Error = E;
        type SerializeSeq = I; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I; type SerializeMap = I; type SerializeStruct = I; type SerializeStructVariant = I;
        fn is_human_readable(&self) -> bool { self.0 }
        fn serialize_bytes(self, v: &[u8]) -> Result<String, E> { Ok(format!("bytes:{}", super::hex(v))) }
        fn serialize_str(self, v: &str) -> Result<String, E> { Ok(format!("str:{}", v)) }
        no! { serialize_bool(bool) -> String; serialize_i8(i8) -> String; serialize_i16(i16) -> String; serialize_i32(i32) -> String; serialize_i64(i64) -> String;
            serialize_u8(u8) -> String; serialize_u16(u16) -> String; serialize_u32(u32) -> String; serialize_u64(u64) -> String; serialize_f32(f32) -> String; serialize_f64(f64) -> String;
            serialize_char(char) -> String; serialize_none() -> String; serialize_unit() -> String; serialize_unit_struct(&'static str) -> String; serialize_unit_variant(&'static str, u32, &'static str) -> String;
            serialize_seq(Option<usize>) -> I; serialize_tuple(usize) -> I; serialize_tuple_struct(&'static str, usize) -> I; serialize_tuple_variant(&'static str, u32, &'static str, usize) -> I;
            serialize_map(Option<usize>) -> I; serialize_struct(&'static str, usize) -> I; serialize_struct_variant(&'static str, u32, &'static str, usize) -> I; }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, E> { Err(E::custom("some")) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<String, E> { Err(E::custom("newtype")) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, E> { Err(E::custom("variant")) }
    }
    pub fn go<T: ?Sized + Serialize>(x: &T, human: bool) -> String { x.serialize(Rec(human)).unwrap_or_else(|e| format!("err:{}", e)) }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push_str(&format!("{:02x}", x)); }
    s
}
// argument: "b:HEX" = on-disk bytes, otherwise text
fn arg(s: &str) -> NumericBuf {
    if let Some(h) = s.strip_prefix("b:") {
        let raw = unhex(h);
        // 4-byte aligned copy, as a database page would give
        let mut w = vec![0u32; (raw.len() + 3) / 4 + 1];
        let p = w.as_mut_ptr() as *mut u8;
        unsafe {
            std::ptr::copy_nonoverlapping(raw.as_ptr(), p, raw.len());
            let n = Numeric::from_bytes_unchecked(std::slice::from_raw_parts(p, raw.len()));
            n.to_owned()
        }
    } else {
        s.parse().expect("driver argument")
    }
}
fn v(n: &NumericBuf) -> String { format!("v:{}", hex(n.as_bytes())) }
fn ov(n: Option<NumericBuf>) -> String { match n { Some(n) => v(&n), None => "none".into() } }

#[derive(Default)]
struct Rec(Vec<String>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.push(hex(b)); }
    fn write_u8(&mut self, i: u8) { self.0.push(format!("u8={}", i)); }
    fn write_i8(&mut self, i: i8) { self.0.push(format!("i8={}", i)); }
    fn write_i32(&mut self, i: i32) { self.0.push(format!("i32={}", i)); }
    fn write_usize(&mut self, i: usize) { self.0.push(format!("us={}", i)); }
}
fn hash<T: Hash + ?Sized>(t: &T) -> String { let mut r = Rec::default(); t.hash(&mut r); r.0.join(",") }

macro_rules! forms {
    ($a:ident, $b:ident, $i:expr, $op:tt, $opa:tt) => {{
        let an: &Numeric = $a.as_numeric(); let bn: &Numeric = $b.as_numeric();
        match $i {
            0 => &$a $op &$b,
            1 => $a.clone() $op &$b,
            2 => an $op &$b,
            3 => $a.clone() $op $b.clone(),
            4 => &$a $op $b.clone(),
            5 => an $op $b.clone(),
            6 => &$a $op bn,
            7 => $a.clone() $op bn,
            8 => an $op bn,
            9 => { let mut x = $a.clone(); x $opa &$b; x }
            10 => { let mut x = $a.clone(); x $opa $b.clone(); x }
            _ => { let mut x = $a.clone(); x $opa bn; x }
        }
    }};
}
fn cmpforms(a: &NumericBuf, b: &NumericBuf) -> String {
    use std::cmp::Ordering;
    let an: &Numeric = a.as_numeric(); let bn: &Numeric = b.as_numeric();
    let c = |o: Option<Ordering>| match o { Some(Ordering::Less) => "<", Some(Ordering::Equal) => "=", Some(Ordering::Greater) => ">", None => "?" };
    let e = |x: bool| if x { "1" } else { "0" };
    let mut s = String::new();
    s += c(Some(a.cmp(b))); s += c(Some(Ord::cmp(an, bn)));
    s += c(a.partial_cmp(b)); s += c(an.partial_cmp(bn));
    s += c(PartialOrd::<Numeric>::partial_cmp(a, bn)); s += c(PartialOrd::<&Numeric>::partial_cmp(a, &bn));
    s += c(PartialOrd::<NumericBuf>::partial_cmp(an, b)); s += c(PartialOrd::<NumericBuf>::partial_cmp(&an, b));
    s += c(PartialOrd::<Numeric>::partial_cmp(&an, bn)); s += c(PartialOrd::<&Numeric>::partial_cmp(an, &bn));
    s += c(PartialOrd::<NumericBuf>::partial_cmp(&a, b)); s += c(PartialOrd::<&NumericBuf>::partial_cmp(a, &b));
    s += " ";
    s += e(a == b); s += e(an == bn);
    s += e(PartialEq::<Numeric>::eq(a, bn)); s += e(PartialEq::<&Numeric>::eq(a, &bn));
    s += e(PartialEq::<NumericBuf>::eq(an, b)); s += e(PartialEq::<NumericBuf>::eq(&an, b));
    s += e(PartialEq::<Numeric>::eq(&an, bn)); s += e(PartialEq::<&Numeric>::eq(an, &bn));
    s += e(PartialEq::<NumericBuf>::eq(&a, b)); s += e(PartialEq::<&NumericBuf>::eq(a, &b));
    s += " ";
    s += e(a < b); s += e(a <= b); s += e(a > b); s += e(a >= b); s += e(an < bn); s += e(an <= bn); s += e(an > bn); s += e(an >= bn);
    s
}
macro_rules! toint {
    ($a:ident, $t:ty) => {{
        let f = |r: Result<$t, pgnumeric::NumericTryFromError>| match r { Ok(x) => format!("i:{}", x), Err(e) => format!("err:{}", e) };
        let x = f(<$t>::try_from(&$a)); let y = f(<$t>::try_from($a.as_numeric())); let z = f(<$t>::try_from($a.clone()));
        if x == y && y == z { x } else { format!("differ:{}|{}|{}", x, y, z) }
    }};
}
fn run(l: &str) -> String {
    let p: Vec<&str> = l.split('\t').collect();
    let i32a = |k: usize| p[k].parse::<i32>().unwrap();
    match p[0] {
        "id" => v(&arg(p[1])),
        "add" => ov(arg(p[1]).checked_add(&arg(p[2]))),
        "sub" => ov(arg(p[1]).checked_sub(&arg(p[2]))),
        "mul" => ov(arg(p[1]).checked_mul(&arg(p[2]))),
        "div" => ov(arg(p[1]).checked_div(&arg(p[2]))),
        "divt" => ov(arg(p[1]).checked_div_trunc(&arg(p[2]))),
        "rem" => ov(arg(p[1]).checked_rem(&arg(p[2]))),
        "op" => { let a = arg(p[2]); let b = arg(p[3]); let i = i32a(4);
            v(&match p[1] { "+" => forms!(a, b, i, +, +=), "-" => forms!(a, b, i, -, -=), "*" => forms!(a, b, i, *, *=), "/" => forms!(a, b, i, /, /=), _ => forms!(a, b, i, %, %=) }) }
        // an operator form next to the checked operation: "<operator outcome>\t<checked outcome>"
        "opx" => { let a = arg(p[2]); let b = arg(p[3]); let i = i32a(4);
            let c = ov(match p[1] { "+" => a.checked_add(&b), "-" => a.checked_sub(&b), "*" => a.checked_mul(&b), "/" => a.checked_div(&b), _ => a.checked_rem(&b) });
            let o = match catch_unwind(AssertUnwindSafe(|| v(&match p[1] { "+" => forms!(a, b, i, +, +=), "-" => forms!(a, b, i, -, -=), "*" => forms!(a, b, i, *, *=), "/" => forms!(a, b, i, /, /=), _ => forms!(a, b, i, %, %=) }))) { Ok(s) => s, Err(e) => pmsg(e) };
            format!("{}\t{}", o, c) }
        "negopx" => { let a = arg(p[1]); let n = a.negate(); let x = -&a; let y = -a.as_numeric(); let z = -a.clone(); format!("{}\t{}\t{}\t{}", v(&x), v(&y), v(&z), v(&n)) }
        "negop" => { let a = arg(p[1]); let x = -&a; let y = -a.as_numeric(); let z = -a.clone(); format!("{}\t{}\t{}", v(&x), v(&y), v(&z)) }
        "neg" => v(&arg(p[1]).negate()),
        "abs" => v(&arg(p[1]).abs()),
        "sgn" => v(&arg(p[1]).signum()),
        "inc" => v(&arg(p[1]).inc()),
        "isneg" => { let a = arg(p[1]); format!("{} {} {} {:?}", a.is_nan(), a.is_negative(), a.is_positive(), a.scale()) }
        "round" => v(&arg(p[1]).round(i32a(2))),
        "trunc" => v(&arg(p[1]).trunc(i32a(2))),
        "ceil" => v(&arg(p[1]).ceil()),
        "floor" => v(&arg(p[1]).floor()),
        "sqrt" => v(&arg(p[1]).sqrt()),
        "ln" => v(&arg(p[1]).ln()),
        "pow" => ov(arg(p[1]).pow(&arg(p[2]))),
        "fact" => ov(NumericBuf::factorial(p[1].parse().unwrap())),
        "cmp" => cmpforms(&arg(p[1]), &arg(p[2])),
        "hash" => { let a = arg(p[1]); format!("{}\t{}", hash(&a), hash(a.as_numeric())) }
        "parse" => { let s = String::from_utf8(unhex(p[1])).unwrap(); match s.parse::<NumericBuf>() { Ok(n) => v(&n), Err(e) => format!("err:{}", e) } }
        "show" => { let a = arg(p[1]); let x = a.to_string(); let y = a.as_numeric().to_string(); format!("{}\t{}", x, if x == y { "same" } else { "differ" }) }
        "norm" => arg(p[1]).normalize(),
        "sci" => { let a = arg(p[1]); let x = format!("{:e}", a); let y = format!("{:e}", a.as_numeric()); let z = format!("{:E}", a); format!("{}\t{}\t{}", x, y, z) }
        "typmod" => { match Typmod::new(i32a(1), i32a(2)) { Some(t) => { let (x, y) = t.extract(); format!("{} {} {} {}", x, y, t.value(), t) } None => "none".into() } }
        "typmod1" => { match Typmod::with_precision(i32a(1)) { Some(t) => { let (x, y) = t.extract(); format!("{} {} {}", x, y, t.value()) } None => "none".into() } }
        "apply" => { let mut a = arg(p[1]); let t = if p[2] == "default" { Typmod::default() } else { Typmod::new(i32a(2), i32a(3)).unwrap() };
            let o = a.apply_typmod(t); format!("{} {}", o, v(&a)) }
        // a history of in-place operations; panics are caught and the value is used afterwards
        "hist" => { let mut a = arg(p[1]); let mut sh = arg(p[1]); let mut out = Vec::new();
            for h in &p[2..] {
                let q: Vec<&str> = h.split(' ').collect();
                // the pure operation on an independent copy; where it has no result the value stays
                let pure = catch_unwind(AssertUnwindSafe(|| match q[0] {
                    "neg" => Some(sh.negate()), "abs" => Some(sh.abs()), "round" => Some(sh.round(q[1].parse().unwrap())), "trunc" => Some(sh.trunc(q[1].parse().unwrap())),
                    "apply" if q[1] != "default" => Some(sh.round(q[2].parse().unwrap())),
                    "addassign" => sh.checked_add(&arg(q[1])), _ => Some(sh.clone()) }));
                let ps = match pure { Ok(Some(x)) => { sh = x; "some" } Ok(None) => "none", Err(_) => "panic" };
                let r = catch_unwind(AssertUnwindSafe(|| match q[0] {
                    "neg" => { a.negate_mut(); false } "abs" => { a.abs_mut(); false }
                    "round" => { a.round_mut(q[1].parse().unwrap()); false } "trunc" => { a.trunc_mut(q[1].parse().unwrap()); false }
                    "apply" => { let t = if q[1] == "default" { Typmod::default() } else { Typmod::new(q[1].parse().unwrap(), q[2].parse().unwrap()).unwrap() }; a.apply_typmod(t) }
                    "addassign" => { a += &arg(q[1]); false }
                    "clone" => { a = a.clone(); false }
                    "id" => { false }
                    _ => unreachable!() }));
                let st = match r { Ok(true) => "ovf", Ok(false) => "ok", Err(_) => "panic" };
                out.push(format!("{} {} {} {}", st, v(&a), ps, v(&sh)));
                let _ = a.to_string();
            }
            out.join("\t") }
        "from" => { let s = p[2];
            v(&match p[1] { "i8" => NumericBuf::from(s.parse::<i8>().unwrap()), "i16" => NumericBuf::from(s.parse::<i16>().unwrap()), "i32" => NumericBuf::from(s.parse::<i32>().unwrap()), "i64" => NumericBuf::from(s.parse::<i64>().unwrap()), "i128" => NumericBuf::from(s.parse::<i128>().unwrap()), "isize" => NumericBuf::from(s.parse::<isize>().unwrap()),
                "u8" => NumericBuf::from(s.parse::<u8>().unwrap()), "u16" => NumericBuf::from(s.parse::<u16>().unwrap()), "u32" => NumericBuf::from(s.parse::<u32>().unwrap()), "u64" => NumericBuf::from(s.parse::<u64>().unwrap()), "u128" => NumericBuf::from(s.parse::<u128>().unwrap()), "usize" => NumericBuf::from(s.parse::<usize>().unwrap()),
                _ => NumericBuf::from(s == "1") }) }
        "to" => { let a = arg(p[2]);
            match p[1] { "i8" => toint!(a, i8), "i16" => toint!(a, i16), "i32" => toint!(a, i32), "i64" => toint!(a, i64), "i128" => toint!(a, i128), "isize" => toint!(a, isize),
                "u8" => toint!(a, u8), "u16" => toint!(a, u16), "u32" => toint!(a, u32), "u64" => toint!(a, u64), "u128" => toint!(a, u128), _ => toint!(a, usize) } }
        "fromf" => match if p[1] == "f32" { NumericBuf::try_from(p[2].parse::<f32>().unwrap()) } else { NumericBuf::try_from(p[2].parse::<f64>().unwrap()) } { Ok(n) => v(&n), Err(e) => format!("err:{}", e) },
        "tof" => { let a = arg(p[2]); if p[1] == "f32" { match f32::try_from(&a) { Ok(f) => format!("f:{:?}", f), Err(e) => format!("err:{}", e) } } else { match f64::try_from(&a) { Ok(f) => format!("f:{:?}", f), Err(e) => format!("err:{}", e) } } }
        "bytes" => { let a = arg(p[1]); let b = a.as_bytes(); let n = unsafe { Numeric::from_bytes_unchecked(b) }; let same = n.as_bytes() == b; format!("{}\t{}\t{}\t{}", hex(b), same, n, n.scale().map(|s| s.to_string()).unwrap_or("nan".into())) }
        "const" => format!("{} {} {} {}", v(&NumericBuf::nan()), v(&NumericBuf::zero()), hex(Numeric::nan().as_bytes()), hex(Numeric::zero().as_bytes())),
        "serde" => { let a = arg(p[1]);
            let j = serde_json::to_string(&a).unwrap(); let jn = serde_json::to_string(a.as_numeric()).unwrap(); let back: NumericBuf = serde_json::from_str(&j).unwrap();
            let b = bincode::serialize(&a).unwrap(); let bn = bincode::serialize(a.as_numeric()).unwrap(); let bb: NumericBuf = bincode::deserialize(&b).unwrap();
            let br: &Numeric = bincode::deserialize(&b).unwrap();
            format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{} {} {} {}", j, jn == j, v(&back), hex(&b), bn == b, v(&bb), hex(br.as_bytes()), rec::go(&a, false), rec::go(a.as_numeric(), false), rec::go(&a, true), rec::go(a.as_numeric(), true)) }
        "de" => { let raw = unhex(p[1]); let b = bincode::serialize(&raw[..]).unwrap();
            let x = match bincode::deserialize::<NumericBuf>(&b) { Ok(n) => format!("{} {}", v(&n), n), Err(_) => "err".into() };
            let y = match bincode::deserialize::<&Numeric>(&b) { Ok(n) => format!("v:{} {}", hex(n.as_bytes()), n), Err(_) => "err".into() };
            format!("{}\t{}", x, y) }
        _ => "bad-op".into(),
    }
}
fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
    format!("panic:{}", m.replace('\n', " ").replace('\t', " "))
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin(); let out = std::io::stdout();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let r = match catch_unwind(AssertUnwindSafe(|| run(&l))) {
            Ok(s) => s,
            Err(e) => pmsg(e),
        };
        let mut o = out.lock(); writeln!(o, "{}", r).unwrap(); o.flush().unwrap();
    }
}

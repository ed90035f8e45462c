//! Mechanical extraction of /repo's Rust functions into the subset Verus accepts.
//! usage: pgn_extract SRC_DIR > out.json
//!
//! What it does is listed in DESIGN.md ("Extraction"); it never adds, drops or reorders executable
//! statements other than as listed there.  Unknown constructs are left verbatim (the verifier then
//! rejects the text, and the check reports "undecided", never "proved").
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn txt<T: ToTokens>(t: &T) -> String { tidy(&t.to_token_stream().to_string()) }
fn tidy(s: &str) -> String { s.replace(" . ", ".").replace(" (", "(").replace(" ;", ";").replace(" ,", ",").replace("& ", "&").replace("&& ", "&& ") }

struct Rw { flags: Vec<String>, lazies: Vec<String> }

fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e } }
/// `{ e }` / `unsafe { e }` -> `e`
fn single(b: &Block) -> Option<Expr> {
    if b.stmts.len() == 1 { if let Stmt::Expr(e, None) = &b.stmts[0] { return Some(e.clone()); } }
    None
}
fn ref_of_index(e: &Expr) -> Option<Expr> {
    if let Expr::Reference(r) = strip_paren(e) { if let Expr::Index(_) = strip_paren(&r.expr) { return Some((*r.expr).clone()); } }
    None
}
fn args_of(ts: &TokenStream) -> Vec<TokenStream> {
    let mut out = vec![]; let mut cur = TokenStream::new();
    for t in ts.clone() {
        if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { out.push(std::mem::take(&mut cur)); continue; } }
        cur.extend(std::iter::once(t));
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
impl Rw {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let a = args_of(&m.tokens);
        let r: TokenStream = match name.as_str() {
            "assert" if a.len() == 2 && parse2::<LitStr>(a[1].clone()).is_ok() => { let (c, m) = (&a[0], &a[1]); quote!(vassert_msg(#c, #m)) }
            "debug_assert" | "assert" => { let c = &a[0]; quote!(vassert(#c)) }
            "assert_eq" if a.len() == 3 && parse2::<LitStr>(a[2].clone()).is_ok() => { let (x, y, m) = (&a[0], &a[1], &a[2]); quote!(vassert_msg((#x) == (#y), #m)) }
            "assert_ne" if a.len() == 3 && parse2::<LitStr>(a[2].clone()).is_ok() => { let (x, y, m) = (&a[0], &a[1], &a[2]); quote!(vassert_msg((#x) != (#y), #m)) }
            "debug_assert_eq" | "assert_eq" => { let (x, y) = (&a[0], &a[1]); quote!(vassert((#x) == (#y))) }
            "debug_assert_ne" | "assert_ne" => { let (x, y) = (&a[0], &a[1]); quote!(vassert((#x) != (#y))) }
            "panic" | "unreachable" | "unimplemented" | "todo" => { let t = a.get(0).cloned().unwrap_or(quote!("")); quote!(__PANIC__(#t)) }
            // write!(F, "FMT", A, n = B) -> vwrite_<FMT with every other character in hex>(F, &(A), &(B)): one function per format string
            "write" => { let mut it = a.iter(); let f = it.next().unwrap(); let rest: Vec<_> = it.collect();
                let fmt = parse2::<LitStr>(rest[0].clone()).ok()?.value(); let n: String = fmt.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("_{:02x}", c as u32) }).collect();
                let id = syn::Ident::new(&format!("vwrite_{}", n), proc_macro2::Span::call_site());
                let args: Vec<TokenStream> = rest[1..].iter().map(|t| { let v: Vec<TokenTree> = (*t).clone().into_iter().collect();
                    if v.len() > 2 && matches!(&v[0], TokenTree::Ident(_)) && matches!(&v[1], TokenTree::Punct(p) if p.as_char() == '=' && p.spacing() == proc_macro2::Spacing::Alone) { let r: TokenStream = v[2..].iter().cloned().collect(); quote!(&(#r)) } else { quote!(&(#t)) } }).collect();
                quote!(#id(#f, #(#args),*)) }
            _ => return None,
        };
        let mut e: Expr = parse2(r).ok()?;
        self.visit_expr_mut(&mut e);
        Some(e)
    }
}
/// `&p` -> `p`
struct StripRef;
impl VisitMut for StripRef { fn visit_pat_mut(&mut self, p: &mut Pat) { if let Pat::Reference(r) = p { *p = (*r.pat).clone(); } visit_mut::visit_pat_mut(self, p); } }
/// iterator chains that consume: count, any, fold, find, rfind -> the loop they run
fn iter_consumer(e: &Expr) -> Option<Expr> {
    let m = match e { Expr::MethodCall(m) => m, _ => return None };
    let clo = |i: usize| match m.args.get(i) { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
    match m.method.to_string().as_str() {
        "count" if m.args.is_empty() => if let Expr::MethodCall(tw) = &*m.receiver { if tw.method == "take_while" { if let Some(Expr::Closure(c)) = tw.args.first() {
            let (p, cond, src) = (&c.inputs[0], &c.body, &tw.receiver);
            let bind: Stmt = if let Pat::Reference(r) = p { let q = &r.pat; parse_quote!(let #q = item__;) } else { parse_quote!(let #p = &item__;) };
            return Some(parse_quote!({ let mut count__ = 0usize; for item__ in #src { if !({ #bind #cond }) { break; } count__ += 1; } count__ }));
        } } None } else { None },
        "any" => clo(0).map(|c| { let (p, cond, src) = (&c.inputs[0], &c.body, &m.receiver); parse_quote!({ let mut any__ = false; for #p in #src { if #cond { any__ = true; break; } } any__ }) }),
        "fold" if matches!(strip_paren(&m.receiver), Expr::Range(_)) => clo(1).map(|c| { let (acc, x, body, src, init) = (&c.inputs[0], &c.inputs[1], &c.body, &m.receiver, &m.args[0]); parse_quote!({ let mut #acc = #init; for #x in #src { #acc = #body; } #acc }) }),
        k @ ("find" | "rfind") => if let (Some(c), Expr::MethodCall(en)) = (clo(0), &*m.receiver) { if en.method == "enumerate" {
            let mut p = c.inputs[0].clone(); StripRef.visit_pat_mut(&mut p);
            let cond = &c.body; let src: Expr = if k == "rfind" { let r = &m.receiver; parse_quote!(#r.rev()) } else { (*m.receiver).clone() };
            Some(parse_quote!({ let mut found__ = None; for (i__, &e__) in #src { if ({ let #p = (i__, e__); #cond }) { found__ = Some((i__, e__)); break; } } found__ }))
        } else { None } } else { None },
        _ => None,
    }
}
impl VisitMut for Rw {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // X.iter()[.rev()][.take_while(|p| C)].for_each(|q| B);  ->  for q in X.iter()[.rev()] { if !C { break; } B }
        if let Stmt::Expr(Expr::MethodCall(m), _) = s {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let (q, b) = (&c.inputs[0], &c.body);
                    let new: Option<Expr> = match &*m.receiver {
                        Expr::MethodCall(tw) if tw.method == "take_while" && tw.args.len() == 1 => match &tw.args[0] {
                            Expr::Closure(t) => { let (p, cond, src) = (&t.inputs[0], &t.body, &tw.receiver);
                                Some(parse_quote!(for item__ in #src { if !({ let #p = &item__; #cond }) { break; } let #q = item__; #b; })) }
                            _ => None },
                        src => Some(parse_quote!(for #q in #src { #b; })),
                    };
                    if let Some(e) = new { *s = Stmt::Expr(e, None); }
                }
            }
        }
        // D.extend(S.iter().map(|P| B));  ->  for P in S.iter() { D.push(B); }
        if let Stmt::Expr(Expr::MethodCall(m), _) = s {
            if m.method == "extend" && m.args.len() == 1 { if let Expr::MethodCall(mp) = &m.args[0] { if mp.method == "map" && mp.args.len() == 1 { if let Expr::Closure(c) = &mp.args[0] {
                let (d, p, b, src) = (&m.receiver, &c.inputs[0], &c.body, &mp.receiver);
                let e: Expr = parse_quote!(for #p in #src { #d.push(#b); });
                *s = Stmt::Expr(e, None);
            } } } }
        }
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) { *s = Stmt::Expr(e, m.semi_token); return; }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let last = p.path.segments.last().unwrap();
            if last.ident == "SmallVec" && txt(last).contains("u8") { *t = parse_quote!(Vec<u8>); return; }
            if last.ident == "Cow" && txt(last).contains("NumericDigits") {
                let lt = txt(last); let lt: TokenStream = if lt.contains("'static") { quote!('static) } else { quote!('a) };
                *t = parse_quote!(CowDigits<#lt>);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = iter_consumer(e) { *e = n; }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Unsafe(u) => match single(&u.block) {
                Some(x) => Some(parse_quote!((#x))),
                None => { let b = &u.block; Some(parse_quote!(#b)) }
            },
            Expr::Paren(p) => match &*p.expr { Expr::Paren(_) | Expr::Path(_) | Expr::Lit(_) | Expr::Index(_) | Expr::Call(_) => Some((*p.expr).clone()), _ => None },
            Expr::MethodCall(m) => {
                let r = &m.receiver; let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("get_unchecked", 1) => { let i = &m.args[0]; Some(parse_quote!(&#r[#i])) }
                    ("get_unchecked_mut", 1) => { let i = &m.args[0]; Some(parse_quote!(&mut #r[#i])) }
                    ("split_at_mut", 1) => { let a = &m.args[0]; Some(parse_quote!(vsplit_at_mut(&mut #r, #a))) }
                    ("copy_from_slice", 1) => { let a = &m.args[0]; match strip_paren(r) {
                        Expr::Index(ix) => match &*ix.index {
                            Expr::Range(g) if g.start.is_some() && g.end.is_some() => {
                                let (b, lo, hi) = (&ix.expr, g.start.as_ref().unwrap(), g.end.as_ref().unwrap());
                                if matches!(g.limits, syn::RangeLimits::Closed(_)) { Some(parse_quote!(vcopy_range(#b, #lo, (#hi) + 1, #a))) } else { Some(parse_quote!(vcopy_range(#b, #lo, #hi, #a))) }
                            }
                            _ => None },
                        _ => None } }
                    ("hash", 1) => { let st = &m.args[0]; match strip_paren(r) {
                        Expr::Index(ix) => match &*ix.index { Expr::Range(g) if g.start.is_some() && g.end.is_some() && matches!(g.limits, syn::RangeLimits::HalfOpen(_)) => { let (b, lo, hi) = (&ix.expr, g.start.as_ref().unwrap(), g.end.as_ref().unwrap()); Some(parse_quote!(vhash_range(#b, #lo, #hi, #st))) } _ => None },
                        _ => None } }
                    // E.chunks_exact(k).take(n): a value with vlen() and vget(i)
                    ("take", 1) => if let Expr::MethodCall(c) = &**r { if c.method == "chunks_exact" { let (x, k, n) = (&c.receiver, &c.args[0], &m.args[0]); Some(parse_quote!(vchunks_take(#x, #k, #n))) } else { None } } else { None },
                    // &[..] as a slice; [x; n] as a slice
                    ("as_ref", 0) if matches!(&**r, Expr::Reference(a) if matches!(&*a.expr, Expr::Array(_))) => Some(parse_quote!(vlit(#r))),
                    ("as_ref", 0) if matches!(&**r, Expr::Repeat(_)) => { if let Expr::Repeat(a) = &**r { let (x, k) = (&a.expr, &a.len); Some(parse_quote!(vrepeat(#x, #k))) } else { None } }
                    ("try_into", 0) => { match strip_paren(r) { Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => Some(parse_quote!(vtry_arr(&#r))), _ => None } }
                    ("make_ascii_lowercase", 0) => Some(parse_quote!(vlower(&mut #r))),
                    ("expect", 1) => { let a = &m.args[0]; Some(parse_quote!(__EXPECT__(#r, #a))) }
                    ("unwrap", 0) => Some(parse_quote!(__EXPECT__(#r, "unwrap"))),
                    // Option only (the crate uses no other `and_then` in the functions under contract)
                    ("and_then", 1) => if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 { let (p, b) = (&c.inputs[0], &c.body); Some(parse_quote!(match #r { Some(#p) => #b, None => None })) } else { None } } else { None },
                    ("clone", 0) => if let Expr::Call(c) = strip_paren(r) { if txt(&c.func).starts_with("lazy_") { Some((**r).clone()) } else { None } } else { None },
                    _ => None,
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => ref_of_index(&u.expr),
            // byte string literal: reference to the array of its bytes
            Expr::Lit(l) if matches!(&l.lit, syn::Lit::ByteStr(_)) => { if let syn::Lit::ByteStr(b) = &l.lit { let v = b.value(); Some(parse_quote!(&[#(#v),*])) } else { None } }
            Expr::Binary(b) => {
                if let Some(x) = ref_of_index(&b.left) { *b.left = x; }
                if let Some(x) = ref_of_index(&b.right) { *b.right = x; }
                if let (BinOp::Eq(_), Expr::Reference(_), Expr::Reference(a)) = (&b.op, strip_paren(&b.left), strip_paren(&b.right)) { if matches!(&*a.expr, Expr::Array(_)) { let (l, r) = (&b.left, &b.right); let n: Expr = parse_quote!(veq_bytes(#l, #r)); *e = n; return; } }
                // X.first() == Some(&L)
                if let (BinOp::Eq(_), Expr::MethodCall(m), Expr::Call(c)) = (&b.op, strip_paren(&b.left), strip_paren(&b.right)) { if m.method == "first" && txt(&*c.func) == "Some" && c.args.len() == 1 { if let Expr::Reference(r) = &c.args[0] {
                    let (l, x) = (&b.left, &r.expr); let n: Expr = parse_quote!(vcopied(#l) == Some(#x)); *e = n; return; } } }
                // compound signed division is outside Verus; on a local variable `x op= e` is `x = x op (e)`
                match (&b.op, &*b.left) {
                    (BinOp::DivAssign(_), Expr::Path(_)) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(#l = #l / (#r))) }
                    // compound assignment on f64 likewise (recognised by a right side cast to f64)
                    (BinOp::MulAssign(_), Expr::Path(_)) if matches!(&*b.right, Expr::Cast(c) if txt(&*c.ty) == "f64") => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(#l = #l * (#r))) }
                    (BinOp::AddAssign(_), Expr::Path(_)) if matches!(&*b.right, Expr::Cast(c) if txt(&*c.ty) == "f64") => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(#l = #l + (#r))) }
                    (BinOp::RemAssign(_), Expr::Path(_)) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(#l = #l % (#r))) }
                    _ => None,
                }
            }
            // (X as f64).log10() as i32
            Expr::Cast(c) if matches!(&*c.expr, Expr::MethodCall(m) if m.method == "log10" && m.args.is_empty() && matches!(strip_paren(&m.receiver), Expr::Cast(d) if txt(&*d.ty) == "f64")) && txt(&*c.ty) == "i32" => {
                if let Expr::MethodCall(m) = &*c.expr { if let Expr::Cast(d) = strip_paren(&m.receiver) { let x = &d.expr; Some(parse_quote!(vlog10_i32(#x))) } else { None } } else { None } }
            // match on Option<&T> with T: Copy: on the copied value
            Expr::Match(m) if matches!(strip_paren(&m.expr), Expr::MethodCall(c) if c.method == "first" && c.args.is_empty()) => {
                for a in m.arms.iter_mut() { StripRef.visit_pat_mut(&mut a.pat); }
                let x = &m.expr; let n: Expr = parse_quote!(vcopied(#x)); *m.expr = n; None }
            Expr::Match(m) if matches!(&*m.expr, Expr::Block(b) if txt(&b.block).contains("found__")) => { for a in m.arms.iter_mut() { StripRef.visit_pat_mut(&mut a.pat); } None }
            // reborrow written as a cast: `x as &T` with x: &mut T
            Expr::Cast(c) if matches!(&*c.ty, Type::Reference(r) if r.mutability.is_none()) && matches!(&*c.expr, Expr::Path(_)) => { let x = &c.expr; Some(parse_quote!(&*#x)) }
            Expr::Cast(c) => { if let Some(x) = ref_of_index(&c.expr) { *c.expr = x; } None }
            // element of the Cow<NumericDigits> field, through Deref
            Expr::Index(ix) if matches!(&*ix.expr, Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "digits") && matches!(&*f.base, Expr::Path(_))) => { let (b, i) = (&ix.expr, &ix.index); Some(parse_quote!(#b.vindex(#i))) }
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Call(c) => {
                let f = txt(&c.func);
                if f.ends_with(":: max_value") && c.args.is_empty() { let t: TokenStream = f.replace(":: max_value", "").parse().unwrap(); Some(parse_quote!(#t::MAX)) }
                else if f.ends_with(":: min_value") && c.args.is_empty() { let t: TokenStream = f.replace(":: min_value", "").parse().unwrap(); Some(parse_quote!(#t::MIN)) }
                else { None }
            }
            Expr::Path(p) => {
                let s = txt(p);
                if self.lazies.contains(&s) { let id = syn::Ident::new(&format!("lazy_{}", s), proc_macro2::Span::call_site()); Some(parse_quote!(#id())) }
                else if s == "SmallVec :: with_capacity" { Some(parse_quote!(Vec::with_capacity)) }
                else if s == "Cow :: Owned" { Some(parse_quote!(CowDigits::Owned)) }
                else if s == "Cow :: Borrowed" { Some(parse_quote!(CowDigits::Borrowed)) }
                else { None }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // `&x` patterns over Copy scalars inside Some(..): `Some(&b'e')`
        if let Pat::TupleStruct(t) = p {
            if t.elems.len() == 1 { if let Pat::Reference(r) = &t.elems[0] { if matches!(&*r.pat, Pat::Lit(_) | Pat::Ident(_)) { let q = (*r.pat).clone(); self.flags.push(format!("refpat {}", txt(&q))); } } }
        }
    }
}

struct Pr { out: String, loops: usize, lets: BTreeMap<String, usize>, rets: usize, ifs: usize, matches: usize, flags: Vec<String>, fnlabel: usize }

impl Pr {
    fn count(&mut self, k: String) -> String { let c = self.lets.entry(k.clone()).or_insert(0); *c += 1; if *c == 1 { k } else { format!("{}#{}", k, c) } }
    fn mark(&mut self, s: &str) { self.out.push_str("\n//@ "); self.out.push_str(s); self.out.push('\n'); }
    fn w(&mut self, s: &str) { self.out.push_str(s); }
    fn block_inner(&mut self, b: &Block, endmark: Option<&str>) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    self.w("let "); self.w(&txt(&l.pat));
                    if let Some(init) = &l.init { self.w(" = "); self.expr(&init.expr); if let Some((_, d)) = &init.diverge { self.w(" else "); self.expr(d); } }
                    self.w(";");
                    let nm = pat_name(&l.pat);
                    let c = self.lets.entry(nm.clone()).or_insert(0); *c += 1; let c = *c;
                    if c == 1 { self.mark(&format!("let {}", nm)); } else { self.mark(&format!("let {}#{}", nm, c)); }
                }
                Stmt::Expr(e, semi) => {
                    if i + 1 == n && semi.is_none() && endmark.is_some() && !is_ctl(e) {
                        self.mark(&format!("{}-pre", endmark.unwrap()));
                        self.expr(e); self.w("\n");
                        return;
                    }
                    if let Expr::MethodCall(m) = e { let c = self.count(format!("call {}", m.method)); self.mark(&c); }
                    if let Expr::Call(m) = e { let f = txt(&*m.func); if f != "vassert" && f != "vassert_msg" { let c = self.count(format!("call {}", f.replace(' ', ""))); self.mark(&c); } }
                    self.expr(e);
                    if semi.is_some() || (i + 1 < n && !is_ctl(e)) { self.w(";"); }
                    if let Expr::Assign(a) = e { let c = self.count(format!("set {}", txt(&*a.left).replace(' ', ""))); self.mark(&c); }
                    if let Expr::MethodCall(m) = e { if semi.is_some() { let c = self.count(format!("past {}", m.method)); self.mark(&c); } }
                    self.w("\n");
                }
                Stmt::Item(Item::Fn(_)) => {} // lifted to a function of its own (add_fn)
                Stmt::Item(Item::Struct(_)) | Stmt::Item(Item::Impl(_)) => {} // functions of inner impls are extracted on their own (inst "in OWNER fn")
                Stmt::Item(it) => { self.w(&txt(it)); self.w("\n"); self.flags.push("inner item".into()); }
                Stmt::Macro(m) => { self.w(&txt(m)); self.w("\n"); }
            }
        }
        if endmark.map_or(false, |m| m.starts_with("bot ")) { self.mark(endmark.unwrap()); return; }
        if let Some(m) = endmark { let tail_expr = matches!(b.stmts.last(), Some(Stmt::Expr(_, None))); if !tail_expr || matches!(b.stmts.last(), Some(Stmt::Expr(Expr::While(_) | Expr::ForLoop(_), None))) || matches!(b.stmts.last(), Some(Stmt::Expr(Expr::If(i), None)) if i.else_branch.is_none()) { self.mark(m); } }
    }
    fn block(&mut self, b: &Block) { self.w("{\n"); self.block_inner(b, None); self.w("}"); }
    fn body(&mut self, b: &Block, k: usize, pre: &str) {
        self.w("{\n"); self.mark(&format!("top {}", k)); self.w(pre);
        self.mark(&format!("body {}", k));
        self.block_inner(b, Some(&format!("bot {}", k))); self.w("}");
    }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block(&b.block),
            Expr::If(i) => {
                let k = self.ifs; self.ifs += 1;
                self.w("if "); if has_loop(&i.cond) { self.expr(&i.cond); } else { self.w(&txt(&i.cond)); } self.w(" {\n"); self.mark(&format!("then {}", k));
                self.block_inner(&i.then_branch, Some(&format!("fi {}", k))); self.w("}");
                if let Some((_, el)) = &i.else_branch {
                    self.w(" else ");
                    if let Expr::Block(b) = &**el { self.w("{\n"); self.mark(&format!("else {}", k)); self.block_inner(&b.block, Some(&format!("esle {}", k))); self.w("}"); } else { self.expr(el); }
                }
            }
            Expr::Match(m) => {
                let k = self.matches; self.matches += 1;
                self.w("match "); if matches!(&*m.expr, Expr::Block(_)) && has_loop(&m.expr) { self.expr(&m.expr); } else { self.w(&txt(&m.expr)); } self.w(" {\n");
                for (j, a) in m.arms.iter().enumerate() {
                    self.w(&txt(&a.pat)); if let Some((_, g)) = &a.guard { self.w(" if "); self.w(&txt(g)); } self.w(" => ");
                    if let Expr::Block(b) = &*a.body { self.w("{\n"); self.mark(&format!("arm {}.{}", k, j)); self.block_inner(&b.block, Some(&format!("mra {}.{}", k, j))); self.w("}"); }
                    else { self.w("{\n"); self.mark(&format!("arm {}.{}", k, j)); self.expr(&a.body); self.w("\n}"); }
                    self.w("\n");
                }
                self.w("}");
            }
            Expr::While(l) => {
                let k = self.loops; self.loops += 1;
                self.mark(&format!("before {}", k));
                self.w("while "); self.w(&txt(&l.cond)); self.mark(&format!("inv {}", k));
                self.body(&l.body, k, ""); self.mark(&format!("after {}", k));
            }
            Expr::Loop(l) => {
                let k = self.loops; self.loops += 1;
                self.mark(&format!("before {}", k));
                self.w("loop "); self.mark(&format!("inv {}", k));
                self.body(&l.body, k, ""); self.mark(&format!("after {}", k));
            }
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::Return(r) => {
                let k = self.rets; self.rets += 1;
                self.mark(&format!("return {}", k));
                self.w("return "); if let Some(x) = &r.expr { self.expr(x); }
            }
            Expr::Call(c) if c.args.iter().any(|a| is_ctl(a)) => {
                self.w(&txt(&c.func)); self.w("("); for a in &c.args { self.expr(a); self.w(", "); } self.w(")");
            }
            Expr::Binary(b) if has_loop(e) => { self.w("("); self.expr(&b.left); self.w(&format!(" {} ", txt(&b.op))); self.expr(&b.right); self.w(")"); }
            // a closure: its parameters, a marker for its contract, its body as a block
            Expr::Closure(c) if c.asyncness.is_none() && matches!(c.output, ReturnType::Default) => {
                let ps: Vec<String> = c.inputs.iter().map(|p| txt(p)).collect(); let n = self.count("closure".into());
                self.w(&format!("| {} |", ps.join(", "))); self.mark(&n);
                if let Expr::Block(_) = &*c.body { self.expr(&c.body); } else { self.w("{ "); self.expr(&c.body); self.w(" }"); }
            }
            Expr::Assign(a) if is_ctl(&a.right) => { self.w(&txt(&a.left)); self.w(" = "); self.expr(&a.right); }
            _ => {
                if has_loop(e) { self.flags.push("loop inside expression".into()); }
                self.w(&txt(e))
            }
        }
    }
    fn for_loop(&mut self, f: &ExprForLoop) {
        let k = self.loops; self.loops += 1;
        let mut it = strip_paren(&f.expr).clone();
        let mut rev = false; let mut enumerate = false;
        if let Expr::MethodCall(m) = &it { if m.method == "rev" && m.args.is_empty() { rev = true; let r = strip_paren(&m.receiver).clone(); it = r; } }
        // X.iter().enumerate().skip(N) with a literal N starts at index N
        let mut start = "0".to_string();
        if let Expr::MethodCall(m) = it.clone() { if m.method == "skip" && m.args.len() == 1 && !rev { if let (Expr::Lit(n), Expr::MethodCall(e)) = (&m.args[0], strip_paren(&m.receiver)) { if e.method == "enumerate" {
            if let Expr::MethodCall(i) = strip_paren(&e.receiver) { if i.method == "iter" { start = txt(n); it = Expr::MethodCall(e.clone()); } } } } } }
        if let Expr::MethodCall(m) = &it { if m.method == "enumerate" && m.args.is_empty() { enumerate = true; let r = strip_paren(&m.receiver).clone(); it = r; } }
        let pat = txt(&f.pat);
        if let (Expr::MethodCall(m), false, false) = (&it, rev, enumerate) { if m.method == "step_by" { if let Expr::Range(r) = strip_paren(&m.receiver) { if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
            let (a, b, st) = (txt(&**a), txt(&**b), txt(&m.args[0]));
            self.w(&format!("let mut it__{k} = {a};\nlet hi__{k} = {b};\nlet st__{k} = {st};\n"));
            self.mark(&format!("before {}", k));
            self.w(&format!("while it__{k} < hi__{k}")); self.mark(&format!("inv {}", k));
            self.body(&f.body, k, &format!("let {pat} = it__{k};\nit__{k} = vstep(it__{k}, hi__{k}, st__{k});\n"));
            self.mark(&format!("after {}", k));
            return;
        } } } }
        if let (Expr::Path(x), true, false) = (&it, enumerate, rev) { if let Pat::Tuple(t) = &*f.pat { if t.elems.len() == 2 {
            let (x, i, c) = (txt(x), txt(&t.elems[0]), txt(&t.elems[1]));
            self.w(&format!("let mut it__{k}: usize = 0;\nlet hi__{k} = {x}.vlen();\n"));
            self.mark(&format!("before {}", k));
            self.w(&format!("while it__{k} < hi__{k}")); self.mark(&format!("inv {}", k));
            self.body(&f.body, k, &format!("let {i} = it__{k};\nlet {c} = {x}.vget(it__{k});\nit__{k} += 1;\n"));
            self.mark(&format!("after {}", k));
            return;
        } } }
        if let (Expr::Range(r), false) = (&it, enumerate) {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let (a, b) = (txt(&**a), txt(&**b));
                let b = if matches!(r.limits, RangeLimits::Closed(_)) { format!("({}) + 1", b) } else { b };
                if rev {
                    self.w(&format!("let lo__{k} = {a};\nlet mut it__{k} = {b};\n"));
                    self.mark(&format!("before {}", k));
                    self.w(&format!("while it__{k} > lo__{k}")); self.mark(&format!("inv {}", k));
                    self.body(&f.body, k, &format!("it__{k} -= 1;\nlet {pat} = it__{k};\n"));
                } else {
                    self.w(&format!("let mut it__{k} = {a};\nlet hi__{k} = {b};\n"));
                    self.mark(&format!("before {}", k));
                    self.w(&format!("while it__{k} < hi__{k}")); self.mark(&format!("inv {}", k));
                    self.body(&f.body, k, &format!("let {pat} = it__{k};\nit__{k} += 1;\n"));
                }
                self.mark(&format!("after {}", k));
                return;
            }
        }
        // slice iteration: X.iter() / X.iter_mut() / &X, optionally enumerate
        let (base, kind) = match &it {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "iter_mut") => (Some(txt(&*m.receiver)), m.method.to_string()),
            Expr::Reference(r) => (Some(txt(&*r.expr)), if r.mutability.is_some() { "iter_mut".into() } else { "iter".to_string() }),
            Expr::Path(_) if !enumerate => (Some(txt(&it)), "iter".to_string()),
            _ => (None, String::new()),
        };
        if let (Some(base), true, true, "iter", Pat::Tuple(t)) = (base.clone(), rev, enumerate, kind.as_str(), &*f.pat) { if t.elems.len() == 2 {
            let pat = if let Pat::Reference(r) = &t.elems[1] { format!("let {} = {base}[it__{k}];\n", txt(&*r.pat)) } else { format!("let {} = &{base}[it__{k}];\n", txt(&t.elems[1])) };
            self.w(&format!("let mut it__{k}: usize = {base}.len();\n"));
            self.mark(&format!("before {}", k));
            self.w(&format!("while it__{k} > 0")); self.mark(&format!("inv {}", k));
            self.body(&f.body, k, &format!("it__{k} -= 1;\nlet {} = it__{k};\n{pat}", txt(&t.elems[0])));
            self.mark(&format!("after {}", k));
            return;
        } }
        if let (Some(base), true, false, "iter") = (base.clone(), rev, enumerate, kind.as_str()) {
            let pat = if let Pat::Reference(r) = &*f.pat { format!("let {} = {base}[it__{k}];\n", txt(&*r.pat)) } else { format!("let {} = &{base}[it__{k}];\n", txt(&*f.pat)) };
            self.w(&format!("let mut it__{k}: usize = {base}.len();\n"));
            self.mark(&format!("before {}", k));
            self.w(&format!("while it__{k} > 0")); self.mark(&format!("inv {}", k));
            self.body(&f.body, k, &format!("it__{k} -= 1;\n{pat}"));
            self.mark(&format!("after {}", k));
            return;
        }
        if let (Some(base), false) = (base, rev) {
            let (ip, ep) = if enumerate {
                if let Pat::Tuple(t) = &*f.pat { if t.elems.len() == 2 { (Some(txt(&t.elems[0])), t.elems[1].clone()) } else { (None, (*f.pat).clone()) } } else { (None, (*f.pat).clone()) }
            } else { (None, (*f.pat).clone()) };
            if !enumerate || ip.is_some() {
                let get = if kind == "iter_mut" { format!("let {} = &mut {base}[it__{k}];\n", txt(&ep)) }
                    else if let Pat::Reference(r) = &ep { format!("let {} = {base}[it__{k}];\n", txt(&*r.pat)) }
                    else { format!("let {} = &{base}[it__{k}];\n", txt(&ep)) };
                let idx = ip.map(|p| format!("let {p} = it__{k};\n")).unwrap_or_default();
                self.w(&format!("let mut it__{k}: usize = {start};\nlet hi__{k} = {base}.len();\n"));
                self.mark(&format!("before {}", k));
                self.w(&format!("while it__{k} < hi__{k}")); self.mark(&format!("inv {}", k));
                self.body(&f.body, k, &format!("{idx}{get}it__{k} += 1;\n"));
                self.mark(&format!("after {}", k));
                return;
            }
        }
        self.flags.push(format!("for over {}", txt(&*f.expr)));
        self.w(&format!("for {} in {} ", pat, txt(&*f.expr))); self.block(&f.body);
    }
}
fn is_ctl(e: &Expr) -> bool { matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) }
fn has_loop(e: &Expr) -> bool {
    struct V(bool); impl<'a> visit::Visit<'a> for V { fn visit_expr(&mut self, e: &'a Expr) { if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) { self.0 = true; } visit::visit_expr(self, e); } }
    let mut v = V(false); visit::Visit::visit_expr(&mut v, e); v.0
}
fn pat_name(p: &Pat) -> String {
    match p { Pat::Ident(i) => i.ident.to_string(), Pat::Type(t) => pat_name(&t.pat), Pat::Tuple(t) => t.elems.iter().map(pat_name).collect::<Vec<_>>().join("_"), Pat::Wild(_) => "_".into(), _ => "pat".into() }
}

/// `cfg_if!` in statement position: the branch that the default features (plus serde) select
struct CfgIf;
impl VisitMut for CfgIf {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for st in b.stmts.drain(..) {
            if let Stmt::Macro(m) = &st { if m.mac.path.is_ident("cfg_if") { if let Some(x) = cfg_branch(m.mac.tokens.clone()) { if let Ok(bl) = parse2::<Block>(quote!({ #x })) { out.extend(bl.stmts); continue; } } } }
            out.push(st);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}
fn cfg_branch(ts: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut i = 0;
    loop {
        // if # [cfg(feature = "x")] { .. } (else ..)?
        if v.get(i)?.to_string() == "if" {
            let cond = match v.get(i + 2)? { TokenTree::Group(g) => g.stream().to_string().replace(' ', ""), _ => return None };
            let body = match v.get(i + 3)? { TokenTree::Group(g) => g.stream(), _ => return None };
            let on = if cond.starts_with("cfg(feature=") { cond.contains("\"serde\"") } else { return None };
            if on { return Some(body); }
            i += 4;
            if v.get(i).is_none() { return Some(TokenStream::new()); }
            if v.get(i)?.to_string() != "else" { return None; }
            i += 1;
        } else if let TokenTree::Group(g) = v.get(i)? { return Some(g.stream()); } else { return None; }
    }
}
struct RenSelf;
impl VisitMut for RenSelf { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = parse_quote!(self_); return; } } visit_mut::visit_expr_mut(self, e); } }
struct Subst<'a> { map: &'a [(String, TokenStream)] }
impl<'a> Subst<'a> {
    fn ts(&self, t: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
        while i < v.len() {
            if let TokenTree::Punct(p) = &v[i] { if p.as_char() == '$' && i + 1 < v.len() { if let TokenTree::Ident(id) = &v[i + 1] {
                if let Some((_, r)) = self.map.iter().find(|(n, _)| id == n) { out.extend(r.clone()); i += 2; continue; } } } }
            match &v[i] {
                TokenTree::Group(g) => { let mut ng = proc_macro2::Group::new(g.delimiter(), self.ts(g.stream())); ng.set_span(g.span()); out.extend(std::iter::once(TokenTree::Group(ng))); }
                t => out.extend(std::iter::once(t.clone())),
            }
            i += 1;
        }
        out
    }
}
/// single-arm `macro_rules!` with simple `$x: kind` parameters
fn parse_macro(ts: TokenStream) -> Option<(Vec<String>, TokenStream)> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (pat, body) = match (&v[0], v.get(3)) { (TokenTree::Group(a), Some(TokenTree::Group(b))) => (a.stream(), b.stream()), _ => return None };
    let pv: Vec<TokenTree> = pat.into_iter().collect(); let mut names = vec![];
    for w in pv.windows(2) { if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) { if p.as_char() == '$' { names.push(i.to_string()); } } }
    Some((names, body))
}

/// In functions that take logarithms, every floating-point operation gets a name: `let fl__k = a op b;` before the statement it occurs in
/// (operands left to right, as Rust evaluates them), so that contracts can speak about intermediate results.
struct Flat { n: usize, pre: Vec<Stmt> }
impl Flat {
    fn floaty(e: &Expr) -> bool {
        match e {
            Expr::Cast(c) => matches!(&*c.ty, Type::Path(t) if t.path.is_ident("f64")),
            Expr::Lit(l) => matches!(&l.lit, Lit::Float(_)),
            Expr::Paren(p) => Flat::floaty(&p.expr),
            Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && (Flat::floaty(&b.left) || Flat::floaty(&b.right)),
            Expr::MethodCall(m) => m.args.is_empty() && (m.method == "ln" || m.method == "log10" || m.method == "abs" && Flat::floaty(&m.receiver)),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| i.to_string().starts_with("fl__")),
            _ => false,
        }
    }
    fn go(&mut self, e: &mut Expr) {
        let f = Flat::floaty(e);
        match e {
            Expr::Paren(p) => self.go(&mut p.expr), Expr::Cast(c) => self.go(&mut c.expr), Expr::Unary(u) => self.go(&mut u.expr),
            Expr::MethodCall(m) => self.go(&mut m.receiver), Expr::Binary(b) => { self.go(&mut b.left); self.go(&mut b.right); } _ => {}
        }
        if f && matches!(e, Expr::Binary(_) | Expr::MethodCall(_)) {
            let id = syn::Ident::new(&format!("fl__{}", self.n), proc_macro2::Span::call_site()); self.n += 1; let x = e.clone();
            self.pre.push(parse_quote!(let #id = #x;)); *e = parse_quote!(#id);
        }
    }
}
impl VisitMut for Flat {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut st in b.stmts.drain(..) {
            match &mut st {
                Stmt::Local(l) => if let Some(i) = &mut l.init { if !is_ctl(&i.expr) { self.go(&mut i.expr); } },
                Stmt::Expr(Expr::Assign(a), _) => if !is_ctl(&a.right) { self.go(&mut a.right); },
                Stmt::Expr(Expr::Binary(x), Some(_)) => self.go(&mut x.right),
                Stmt::Expr(Expr::If(i), _) => if !matches!(&*i.cond, Expr::Let(_)) { self.go(&mut i.cond); },
                _ => {}
            }
            out.append(&mut self.pre);
            visit_mut::visit_stmt_mut(self, &mut st);
            out.push(st);
        }
        b.stmts = out;
    }
}
fn takes_log(b: &Block) -> bool {
    struct V(bool); impl<'a> visit::Visit<'a> for V { fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if m.args.is_empty() && (m.method == "ln" || m.method == "log10") { self.0 = true; } visit::visit_expr_method_call(self, m); } }
    let mut v = V(false); visit::Visit::visit_block(&mut v, b); v.0
}
struct Ctx { fns: Vec<Value>, consts: BTreeMap<String, Value>, lazies: Vec<String>, structs: Vec<Value>, enums: Vec<Value>, macros: BTreeMap<String, (Vec<String>, TokenStream)> }

fn sig_parts(sig: &Signature) -> (String, String, String, Vec<String>) {
    let mut s = sig.clone(); let mut rw = Rw { flags: vec![], lazies: vec![] };
    for a in s.inputs.iter_mut() { rw.visit_fn_arg_mut(a); }
    rw.visit_return_type_mut(&mut s.output);
    let g = format!("{}", txt(&s.generics)); let wh = s.generics.where_clause.as_ref().map(|w| txt(w)).unwrap_or_default();
    let ins: Vec<String> = s.inputs.iter().map(|a| txt(a)).collect();
    let ret = match &s.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => txt(&**t) };
    (g, wh, ret, ins)
}
impl Ctx {
    fn add_fn(&mut self, file: &str, owner: &str, tr: &str, imp_gen: &str, sig: &Signature, block: &Block, cfg: &str, inst: &str) {
        let orig = quote!(#sig #block).to_string();
        for st in &block.stmts { if let Stmt::Item(it @ Item::Impl(_)) = st { self.items(file, std::slice::from_ref(it), &format!("in {} {}", owner, sig.ident)); } }
        for st in &block.stmts { if let Stmt::Item(Item::Fn(f)) = st { self.add_fn(file, "", "", "", &f.sig, &f.block, cfg, &format!("in {} {}", owner, sig.ident)); } }
        let mut b = block.clone();
        CfgIf.visit_block_mut(&mut b);
        let mut rw = Rw { flags: vec![], lazies: self.lazies.clone() };
        rw.visit_block_mut(&mut b);
        if file == "var" && takes_log(&b) { Flat { n: 0, pre: vec![] }.visit_block_mut(&mut b); }
        // `mut self` (by value) is not accepted by the verifier: `self` plus a local `self_`
        let mut sig = sig.clone();
        let mut mutself = false;
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { if r.mutability.is_some() && r.reference.is_none() { r.mutability = None; mutself = true; } }
        if mutself { RenSelf.visit_block_mut(&mut b); b.stmts.insert(0, parse_quote!(let mut self_ = self;)); }
        let sig = &sig;
        let mut p = Pr { out: String::new(), loops: 0, lets: BTreeMap::new(), rets: 0, ifs: 0, matches: 0, flags: rw.flags, fnlabel: 0 };
        p.w("{\n"); p.mark("begin");
        let unit = matches!(sig.output, ReturnType::Default);
        let mut tail = None;
        if !unit { if let Some(Stmt::Expr(_, None)) = b.stmts.last() { if let Some(Stmt::Expr(e, None)) = b.stmts.pop() { tail = Some(e); } } }
        p.block_inner(&b, None);
        match tail {
            Some(e) if matches!(e, Expr::Loop(_)) => p.expr(&e),
            Some(e) => { p.mark("end-pre"); p.w("let ret__ = "); p.expr(&e); p.w(";"); p.mark("end"); p.w("ret__\n"); }
            None => p.mark("end"),
        }
        p.w("}\n");
        let _ = p.fnlabel;
        let (generics, wh, ret, ins) = sig_parts(sig);
        let line = sig.ident.span().start().line;
        self.fns.push(json!({"file": file, "owner": owner, "trait": tr, "impl_generics": imp_gen, "name": sig.ident.to_string(), "generics": generics, "where": wh, "ret": ret, "args": ins,
            "body": p.out, "loops": p.loops, "ifs": p.ifs, "matches": p.matches, "returns": p.rets, "lets": p.lets.keys().filter(|k| !k.contains(' ')).collect::<Vec<_>>(), "flags": p.flags, "orig": orig, "cfg": cfg, "inst": inst, "line": line}));
    }
    fn items(&mut self, file: &str, items: &[Item], inst: &str) {
        for it in items {
            match it {
                Item::Const(c) => { let (n, t, e) = (c.ident.to_string(), txt(&*c.ty), txt(&*c.expr)); let mut ex = (*c.expr).clone(); Rw { flags: vec![], lazies: vec![] }.visit_expr_mut(&mut ex); self.consts.insert(n, json!({"ty": t, "expr": txt(&ex), "raw": e, "file": file})); }
                Item::Fn(f) => { let cfg = cfgs(&f.attrs); self.add_fn(file, "", "", "", &f.sig, &f.block, &cfg, inst); }
                Item::Enum(en) => {
                    let vs: Vec<Value> = en.variants.iter().map(|v| json!([v.ident.to_string(), v.discriminant.as_ref().map(|(_, e)| txt(e)), v.fields.is_empty()])).collect();
                    self.enums.push(json!({"name": en.ident.to_string(), "file": file, "variants": vs}));
                }
                Item::Struct(s) => { let mut f = s.fields.clone(); Rw { flags: vec![], lazies: vec![] }.visit_fields_mut(&mut f);
                    let fs: Vec<Value> = f.iter().map(|x| json!([x.ident.as_ref().map(|i| i.to_string()), txt(&x.ty)])).collect();
                    self.structs.push(json!({"name": s.ident.to_string(), "generics": txt(&s.generics), "fields": fs, "file": file})); }
                Item::Impl(im) => {
                    let owner = txt(&*im.self_ty); let tr = im.trait_.as_ref().map(|(_, p, _)| txt(p)).unwrap_or_default(); let ig = txt(&im.generics);
                    let cfg0 = cfgs(&im.attrs);
                    for x in &im.items {
                        match x {
                            ImplItem::Fn(f) => { let c = format!("{}{}", cfg0, cfgs(&f.attrs)); self.add_fn(file, &owner, &tr, &ig, &f.sig, &f.block, &c, inst); }
                            ImplItem::Const(c) => { self.consts.insert(format!("{}::{}::{}", tr, owner, c.ident), json!({"ty": txt(&c.ty), "expr": txt(&c.expr), "file": file})); }
                            _ => {}
                        }
                    }
                }
                Item::Trait(t) => for x in &t.items { if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { self.add_fn(file, &format!("trait {}", t.ident), "", "", &f.sig, b, "", inst); } } },
                Item::Mod(m) => { if cfgs(&m.attrs).contains("test") { continue; } if let Some((_, its)) = &m.content { self.items(file, its, inst); } }
                Item::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "macro_rules" { if let (Some(id), Some(d)) = (&m.ident, parse_macro(m.mac.tokens.clone())) { self.macros.insert(id.to_string(), d); } }
                    else if name == "lazy_static" {
                        // static ref NAME: T = expr;
                        let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect(); let mut i = 0;
                        while i < v.len() {
                            let mut j = i; while j < v.len() && !matches!(&v[j], TokenTree::Punct(p) if p.as_char() == ';') { j += 1; }
                            let seg: Vec<TokenTree> = v[i..j].to_vec(); i = j + 1;
                            if let Some(r) = seg.iter().position(|t| t.to_string() == "ref") {
                                let nm = seg[r + 1].to_string(); let eq = seg.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '=')).unwrap();
                                let ty: TokenStream = seg[r + 3..eq].iter().cloned().collect(); let ex: TokenStream = seg[eq + 1..].iter().cloned().collect();
                                let id = syn::Ident::new(&format!("lazy_{}", nm), proc_macro2::Span::call_site());
                                let f: ItemFn = parse2(quote!(fn #id() -> #ty { #ex })).unwrap();
                                self.add_fn(file, "", "", "", &f.sig, &f.block, "", inst);
                            }
                        }
                    } else if let Some((names, body)) = self.macros.get(&name).cloned() {
                        let a = args_of(&m.mac.tokens); let map: Vec<(String, TokenStream)> = names.into_iter().zip(a).collect();
                        let label = m.mac.tokens.to_string();
                        if let Ok(f) = parse2::<File>(Subst { map: &map }.ts(body)) { self.items(file, &f.items, &format!("{}!({})", name, label)); }
                    }
                }
                _ => {}
            }
        }
    }
}
fn cfgs(a: &[Attribute]) -> String { a.iter().filter(|x| x.path().is_ident("cfg")).map(|x| txt(x)).collect() }

fn main() {
    let dir = std::env::args().nth(1).expect("src dir");
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    files.sort();
    let mut cx = Ctx { fns: vec![], consts: BTreeMap::new(), lazies: vec![], structs: vec![], enums: vec![], macros: BTreeMap::new() };
    let parsed: Vec<(String, File)> = files.iter().map(|p| { let s = std::fs::read_to_string(p).unwrap(); (p.file_stem().unwrap().to_string_lossy().to_string(), parse_file(&s).unwrap_or_else(|e| { eprintln!("cannot parse {}: {}", p.display(), e); std::process::exit(3) })) }).collect();
    for (_, f) in &parsed { for it in &f.items { if let Item::Macro(m) = it { if m.mac.path.is_ident("lazy_static") { let s = m.mac.tokens.to_string(); for (i, w) in s.split("ref ").enumerate() { if i > 0 { cx.lazies.push(w.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap().to_string()); } } } } } }
    for (n, f) in &parsed { cx.items(n, &f.items, ""); }
    println!("{}", serde_json::to_string_pretty(&json!({"fns": cx.fns, "consts": cx.consts, "structs": cx.structs, "enums": cx.enums, "lazies": cx.lazies})).unwrap());
}

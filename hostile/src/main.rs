//! Hostile programs without `unsafe`: each tries to obtain two conflicting references, a reference into freed memory, or access from
//! threads that must not have it. The compiler has to refuse it, or the library at run time. Programs that are accepted are run, and
//! judge by themselves whether they got what must not exist. A twin of each, differing only in the offending step, must compile, so
//! that a refusal is known to come from the offence.

use std::process::Command;
use std::sync::Mutex;
use vcommon::*;

struct Program {
    check: &'static str,
    name: &'static str,
    bad: &'static str,
    good: &'static str,
}

const PRELUDE: &str = r#"
#![allow(unused, dropping_references, dropping_copy_types)]
#![forbid(unsafe_code)]
use sparsey::component::*;
use sparsey::entity::*;
use sparsey::query::*;
use sparsey::{Entity, World};
use std::cell::Cell;
use std::rc::Rc;
use std::hint::black_box;
#[derive(Debug)]
struct A(u32);
struct B(Vec<u8>);
fn at<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }
/// Both references are usable here, so their being the same is a conflict.
fn both(a: &mut A, b: &mut A) {
    a.0 = 1;
    b.0 = 2;
    if at(a) == at(b) { found("two exclusive references to one value") }
}
fn shared(a: &A, b: &mut A) {
    if at(a) == at(b) { found("a shared and an exclusive reference to one value") }
}
fn found(what: &str) -> ! {
    println!("OBSERVED {what}");
    std::process::exit(10)
}
fn world() -> (World, Entity) {
    let mut l = GroupLayout::default();
    l.add_group::<(A, B)>();
    let mut w = World::new(&l);
    let e = w.create((A(0), B(vec![1])));
    (w, e)
}
fn main() {
    let (mut w, e) = world();
"#;

macro_rules! programs {
    ($($check:literal $name:literal { $bad:literal } { $good:literal })*) => {
        const PROGRAMS: &[Program] = &[$(Program { check: $check, name: $name, bad: $bad, good: $good }),*];
    };
}

programs! {
    "C10" "two mutable iterators of one query"
        { "let mut q = w.query_all::<&mut A>(); let mut i = q.iter(); let mut j = q.iter(); both(i.next().unwrap(), j.next().unwrap());" }
        { "let mut q = w.query_all::<&mut A>(); let mut i = q.iter(); i.next().unwrap().0 = 3; let mut j = q.iter(); j.next().unwrap().0 = 4;" }
    "C10" "loop over a shared query with mutable items"
        { "let q = w.query_all::<&mut A>(); for a in &q { for b in &q { both(a, b); } }" }
        { "let mut q = w.query_all::<&mut A>(); for a in &mut q { a.0 = 1; }" }
    "C10" "nested for_each of one query"
        { "let mut q = w.query_all::<&mut A>(); let p = &q; p.for_each(|a| p.for_each(|b| both(a, b)));" }
        { "let mut q = w.query_all::<&mut A>(); let p = &mut q; p.for_each(|a| a.0 = 1);" }
    "C10" "slice and iterator of one query"
        { "let mut q = w.query_all::<&mut A>(); let s = q.slice().unwrap(); let mut i = q.iter(); both(&mut s[0], i.next().unwrap());" }
        { "let mut q = w.query_all::<&mut A>(); let s = q.slice().unwrap(); s[0].0 = 1; let mut i = q.iter(); i.next().unwrap().0 = 2;" }
    "C10" "two slices of one query"
        { "let mut q = w.query_all::<(&mut A, &B)>(); let s = q.slice().unwrap().0; let t = q.slice().unwrap().0; both(&mut s[0], &mut t[0]);" }
        { "let mut q = w.query_all::<(&mut A, &B)>(); let s = q.slice().unwrap().0; s[0].0 = 1; let t = q.slice().unwrap().0; t[0].0 = 1;" }
    "C10" "item that outlives its query"
        { "let mut q = w.query_all::<&mut A>(); let a = q.iter().next().unwrap(); drop(q); both(a, &mut w.borrow_mut::<A>()[e]);" }
        { "let mut q = w.query_all::<&mut A>(); let a = q.iter().next().unwrap(); a.0 = 1; drop(q); w.borrow_mut::<A>()[e].0 = 1;" }
    "C10" "slice that outlives its query"
        { "let mut q = w.query_all::<&mut A>(); let a = q.slice().unwrap(); drop(q); both(&mut a[0], &mut w.borrow_mut::<A>()[e]);" }
        { "let mut q = w.query_all::<&mut A>(); let a = q.slice().unwrap(); a[0].0 = 1; drop(q); w.borrow_mut::<A>()[e].0 = 1;" }
    "C10" "item carried out of for_each"
        { "let mut o = None; w.for_each::<&mut A>(|a| o = Some(a)); both(o.unwrap(), &mut w.borrow_mut::<A>()[e]);" }
        { "let mut o = None; w.for_each::<&mut A>(|a| o = Some(a.0)); w.borrow_mut::<A>()[e].0 = o.unwrap();" }
    "C10" "item carried out of map"
        { "let mut q = w.query_one::<&mut A>(); let a = q.map(e, |a| a).unwrap(); drop(q); both(a, &mut w.borrow_mut::<A>()[e]);" }
        { "let mut q = w.query_one::<&mut A>(); let a = q.map(e, |a| a.0).unwrap(); drop(q); w.borrow_mut::<A>()[e].0 = a;" }
    "C10" "two items of one point query"
        { "let mut q = w.query_one::<&mut A>(); let a = q.get(e).unwrap(); let b = q.get(e).unwrap(); both(a, b);" }
        { "let mut q = w.query_one::<&mut A>(); let a = q.get(e).unwrap(); a.0 = 1; let b = q.get(e).unwrap(); b.0 = 2;" }
    "C10" "item that outlives its point query"
        { "let mut q = w.query_one::<&mut A>(); let a = q.get(e).unwrap(); drop(q); both(a, &mut w.borrow_mut::<A>()[e]);" }
        { "let mut q = w.query_one::<&mut A>(); let a = q.get(e).unwrap(); a.0 = 1; drop(q); w.borrow_mut::<A>()[e].0 = 1;" }
    "C10" "two references through get_mut"
        { "let mut v = w.borrow_mut::<A>(); let a = v.get_mut(e).unwrap(); let b = v.get_mut(e).unwrap(); both(a, b);" }
        { "let mut v = w.borrow_mut::<A>(); let a = v.get_mut(e).unwrap(); a.0 = 1; let b = v.get_mut(e).unwrap(); b.0 = 1;" }
    "C10" "shared and exclusive reference of one view"
        { "let mut v = w.borrow_mut::<A>(); let a = v.get(e).unwrap(); let b = v.get_mut(e).unwrap(); shared(a, b); drop(a);" }
        { "let mut v = w.borrow_mut::<A>(); let a = v.get(e).unwrap().0; let b = v.get_mut(e).unwrap(); b.0 = a;" }
    "C10" "two mutable slices of one view"
        { "let mut v = w.borrow_mut::<A>(); let a = v.as_mut_slice(); let b = v.as_mut_slice(); both(&mut a[0], &mut b[0]);" }
        { "let mut v = w.borrow_mut::<A>(); let a = v.as_mut_slice(); a[0].0 = 1; let b = v.as_mut_slice(); b[0].0 = 1;" }
    "C10" "mutable slice that outlives its view"
        { "let mut v = w.borrow_mut::<A>(); let a = v.as_mut_slice(); drop(v); both(&mut a[0], &mut w.borrow_mut::<A>()[e]);" }
        { "let mut v = w.borrow_mut::<A>(); let a = v.as_mut_slice(); a[0].0 = 1; drop(v); w.borrow_mut::<A>()[e].0 = 1;" }
    "C10" "shared reference that outlives its view"
        { "let v = w.borrow::<A>(); let a = v.get(e).unwrap(); drop(v); shared(a, &mut w.borrow_mut::<A>()[e]);" }
        { "let v = w.borrow::<A>(); let a = v.get(e).unwrap().0; drop(v); w.borrow_mut::<A>()[e].0 = a;" }
    "C10" "slice that outlives its shared view"
        { "let v = w.borrow::<A>(); let a = v.as_slice(); drop(v); shared(&a[0], &mut w.borrow_mut::<A>()[e]);" }
        { "let v = w.borrow::<A>(); let a = v.as_slice().len(); drop(v); w.borrow_mut::<A>()[e].0 = a as u32;" }
    "C10" "entities of a view that outlive it"
        { "let v = w.borrow::<A>(); let s = v.entities(); drop(v); w.clear(); if s.len() == 1 && w.borrow::<A>().is_empty() { found(\"a slice of removed entities\") }" }
        { "let v = w.borrow::<A>(); let s = v.entities().to_vec(); drop(v); w.clear(); assert!(s.len() == 1 && w.borrow::<A>().is_empty());" }
    "C10" "view across a mutation of the world"
        { "let v = w.borrow::<A>(); w.destroy(e); if v.len() != 1 || !w.contains_entity(e) { found(\"a mutation under a view\") }; drop(v);" }
        { "let v = w.borrow::<A>(); drop(v); w.destroy(e); assert!(!w.contains_entity(e));" }
    "C10" "slice across a mutation of the world"
        { "let mut q = w.query_all::<&A>(); let s = q.slice().unwrap(); w.clear(); if s.len() == 1 && w.is_empty() { found(\"a slice of dropped values\") }" }
        { "let mut q = w.query_all::<&A>(); let s = q.slice().unwrap().len(); drop(q); w.clear(); assert!(s == 1 && w.is_empty());" }
    "C10" "entities across a mutation of the world"
        { "let s = w.entities(); w.clear(); if s.len() == 1 && w.is_empty() { found(\"a slice of removed entities\") }" }
        { "let s = w.entities().to_vec(); w.clear(); assert!(s.len() == 1 && w.is_empty());" }
    "C10" "slice of new entities across a mutation of the world"
        { "let s = w.extend([(A(1),)]); w.clear(); if s.len() == 1 && w.is_empty() { found(\"a slice of removed entities\") }" }
        { "let s = w.extend([(A(1),)]).to_vec(); w.clear(); assert!(s.len() == 1 && w.is_empty());" }
    "C10" "view that outlives its world"
        { "let v = w.borrow::<A>(); drop(w); if black_box(v.len()) < 2 { found(\"a view of a dropped world\") }" }
        { "let v = w.borrow::<A>(); black_box(v.len()); drop(v); drop(w);" }
    "C10" "query that outlives its world"
        { "let mut q = w.query_all::<&A>(); drop(w); if black_box(q.iter().count()) < 2 { found(\"a query of a dropped world\") }" }
        { "let mut q = w.query_all::<&A>(); black_box(q.iter().count()); drop(q); drop(w);" }
    "C10" "copy of a mutable iterator"
        { "let mut q = w.query_all::<&mut A>(); let mut i = q.iter(); let mut j = i.clone(); both(i.next().unwrap(), j.next().unwrap());" }
        { "let mut q = w.query_all::<&mut A>(); let mut i = q.iter(); let mut j = i; j.next().unwrap().0 = 1;" }
    "C10" "copy of a mutable dense iterator"
        { "let mut q = w.query_all::<&mut A>(); if let Iter::Dense(mut i) = q.iter() { let mut j = i.clone(); both(i.next().unwrap(), j.next().unwrap()); }" }
        { "let mut q = w.query_all::<&mut A>(); if let Iter::Dense(mut i) = q.iter() { let mut j = i; j.next().unwrap().0 = 1; }" }
    "C10" "copy of a mutable sparse iterator"
        { "let mut q = w.query_all::<(&mut A,)>().include::<Option<&B>>(); let i = q.iter(); if let Iter::Sparse(mut i) = i { let mut j = i.clone(); both(i.next().unwrap().0, j.next().unwrap().0); }" }
        { "let mut q = w.query_all::<(&mut A,)>().include::<Option<&B>>(); let i = q.iter(); if let Iter::Sparse(mut i) = i { let mut j = i; j.next().unwrap().0.0 = 1; }" }
    "C10" "copy of a query"
        { "let mut q = w.query_all::<&mut A>(); let mut p = q.clone(); both(q.iter().next().unwrap(), p.iter().next().unwrap());" }
        { "let mut q = w.query_all::<&mut A>(); let mut p = q; p.iter().next().unwrap().0 = 1;" }
    "C10" "copy of a point query"
        { "let mut q = w.query_one::<&mut A>(); let mut p = q.clone(); both(q.get(e).unwrap(), p.get(e).unwrap());" }
        { "let mut q = w.query_one::<&mut A>(); let mut p = q; p.get(e).unwrap().0 = 1;" }
    "C10" "copy of a mutable view"
        { "fn copy<T: Clone>(t: &T) -> T { t.clone() } let mut v = w.borrow_mut::<A>(); let mut u = copy(&v); both(&mut v[e], &mut u[e]);" }
        { "let mut v = w.borrow_mut::<A>(); let mut u = v; u[e].0 = 1;" }
    "C10" "exclusive reference through a shared mutable view"
        { "let v = w.borrow_mut::<A>(); let p = &v; both(p.get_mut(e).unwrap(), p.get_mut(e).unwrap());" }
        { "let mut v = w.borrow_mut::<A>(); let p = &mut v; p.get_mut(e).unwrap().0 = 1;" }
    "C10" "exclusive reference through a shared view"
        { "let mut v = w.borrow::<A>(); let mut u = w.borrow::<A>(); both(v.get_mut(e).unwrap(), u.get_mut(e).unwrap());" }
        { "let mut v = w.borrow::<A>(); let mut u = w.borrow::<A>(); assert_eq!(at(v.get(e).unwrap()), at(u.get(e).unwrap()));" }
    "C10" "mutable indexing through a shared view"
        { "let mut v = w.borrow::<A>(); let mut u = w.borrow::<A>(); both(&mut v[e], &mut u[e]);" }
        { "let mut v = w.borrow::<A>(); let mut u = w.borrow::<A>(); assert_eq!(at(&v[e]), at(&u[e]));" }
    "C10" "component with a borrowed part"
        { "struct L<'a>(&'a [u8]); { let text = vec![7u8; 64]; w.register::<L<'_>>(); w.create((L(&text),)); } if w.borrow::<L<'_>>().as_slice()[0].0.len() == 64 { found(\"a component with a reference to freed memory\") }" }
        { "struct L<'a>(&'a [u8]); w.register::<L<'static>>(); w.create((L(&[7, 7]),)); assert!(w.borrow::<L<'static>>().as_slice()[0].0.len() == 2);" }
    "C10" "unchecked slot of a sparse index"
        { "let mut s = SparseVec::new(); let x = s.get_unchecked_mut(1 << 20); *x = None; found(\"a slot that does not exist\")" }
        { "let mut s = SparseVec::new(); let x = s.get_mut_or_allocate_at(1 << 10); *x = None;" }
    "C10" "unchecked lookup in a sparse index"
        { "let s = SparseVec::new(); black_box(s.get_sparse_unchecked(1 << 20)); found(\"a slot that does not exist\")" }
        { "let s = SparseVec::new(); black_box(s.get_sparse(1 << 20));" }
    "C10" "unchecked exchange in a sparse index"
        { "let mut s = SparseVec::new(); s.swap_nonoverlapping(1 << 20, 1 << 21); found(\"slots that do not exist\")" }
        { "let mut s = SparseVec::new(); s.remove_sparse(1 << 20);" }
    "C14" "mutable items of a shared query part"
        { "let mut q = w.query_all::<&A>(); let a: &mut A = q.iter().next().unwrap(); let v = w.borrow::<A>(); shared(&v[e], a);" }
        { "let mut q = w.query_all::<&A>(); let a: &A = q.iter().next().unwrap(); let v = w.borrow::<A>(); assert_eq!(at(&v[e]), at(a));" }
    "C14" "parallel iterators of one query"
        { "use rayon::prelude::*; let mut q = w.query_all::<&mut A>(); let i = q.par_iter(); let j = q.par_iter(); let (x, y) = (i.find_any(|_| true), j.find_any(|_| true)); both(x.unwrap(), y.unwrap());" }
        { "use rayon::prelude::*; let mut q = w.query_all::<&mut A>(); let i = q.par_iter(); let x = i.find_any(|_| true); x.unwrap().0 = 1; let j = q.par_iter(); drop(j);" }
    "C14" "parallel item that outlives its query"
        { "use rayon::prelude::*; let mut q = w.query_all::<&mut A>(); let a = q.par_iter().find_any(|_| true).unwrap(); drop(q); both(a, &mut w.borrow_mut::<A>()[e]);" }
        { "use rayon::prelude::*; let mut q = w.query_all::<&mut A>(); let a = q.par_iter().find_any(|_| true).unwrap(); a.0 = 1; drop(q); w.borrow_mut::<A>()[e].0 = 1;" }
    "C14" "parallel item carried out of for_each"
        { "let o = std::sync::Mutex::new(None); w.par_for_each::<&mut A>(|a| *o.lock().unwrap() = Some(a)); let a = o.into_inner().unwrap().unwrap(); both(a, &mut w.borrow_mut::<A>()[e]);" }
        { "let o = std::sync::Mutex::new(None); w.par_for_each::<&mut A>(|a| *o.lock().unwrap() = Some(a.0)); let a = o.into_inner().unwrap().unwrap(); w.borrow_mut::<A>()[e].0 = a;" }
    "C14" "copy of a parallel iterator"
        { "use rayon::prelude::*; let mut q = w.query_all::<&mut A>(); let i = q.par_iter(); let j = i.clone(); both(i.find_any(|_| true).unwrap(), j.find_any(|_| true).unwrap());" }
        { "use rayon::prelude::*; let mut q = w.query_all::<&mut A>(); let i = q.par_iter(); let j = i; j.find_any(|_| true).unwrap().0 = 1;" }
    "C12" "component that may not be shared"
        { "w.register::<Cell<u32>>(); let c = w.create((Cell::new(0),)); let w = &w; let t = std::thread::current().id(); std::thread::scope(|s| { s.spawn(move || { if std::thread::current().id() != t { w.borrow::<Cell<u32>>()[c].set(5); } }); }); if w.borrow::<Cell<u32>>()[c].get() == 5 { found(\"a Cell changed by another thread\") }" }
        { "w.register::<std::sync::atomic::AtomicU32>(); let c = w.create((std::sync::atomic::AtomicU32::new(0),)); let w = &w; std::thread::scope(|s| { s.spawn(move || w.borrow::<std::sync::atomic::AtomicU32>()[c].store(5, std::sync::atomic::Ordering::Relaxed)); });" }
    "C12" "component that may not be sent"
        { "w.register::<Rc<u32>>(); let r = Rc::new(5); w.create((r.clone(),)); std::thread::spawn(move || drop(w)).join().unwrap(); if Rc::strong_count(&r) == 1 { found(\"an Rc released by another thread\") }" }
        { "w.register::<std::sync::Arc<u32>>(); let r = std::sync::Arc::new(5); w.create((r.clone(),)); std::thread::spawn(move || drop(w)).join().unwrap(); assert!(std::sync::Arc::strong_count(&r) == 1);" }
    "C12" "component with a guard that may not be sent"
        { "static M: std::sync::Mutex<u8> = std::sync::Mutex::new(0); type G = std::sync::MutexGuard<'static, u8>; w.register::<G>(); w.create((M.lock().unwrap(),)); std::thread::spawn(move || drop(w)).join().unwrap(); if M.try_lock().is_ok() { found(\"a lock released by another thread\") }" }
        { "static M: std::sync::Mutex<u8> = std::sync::Mutex::new(0); type G = &'static std::sync::Mutex<u8>; w.register::<G>(); w.create((&M,)); std::thread::spawn(move || drop(w)).join().unwrap(); assert!(M.try_lock().is_ok());" }
    "C12" "unshareable state in a parallel closure"
        { "w.extend((0..9999).map(|i| (A(i),))); let c = Cell::new(0u64); w.par_for_each::<&A>(|_| c.set(c.get() + 1)); if black_box(c.get()) > 0 { found(\"a Cell changed by several threads\") }" }
        { "w.extend((0..9999).map(|i| (A(i),))); let c = std::sync::atomic::AtomicU64::new(0); w.par_for_each::<&A>(|_| { c.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }); assert_eq!(c.into_inner(), 10000);" }
    "C12" "unshareable state in a parallel closure of a query"
        { "w.extend((0..9999).map(|i| (A(i),))); let c = Cell::new(0u64); w.query_all::<&A>().par_for_each(|_| c.set(c.get() + 1)); if black_box(c.get()) > 0 { found(\"a Cell changed by several threads\") }" }
        { "w.extend((0..9999).map(|i| (A(i),))); let c = std::sync::atomic::AtomicU64::new(0); w.query_all::<&A>().par_for_each(|_| { c.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }); assert_eq!(c.into_inner(), 10000);" }
    "C12" "unsendable state in a parallel closure"
        { "w.extend((0..9999).map(|i| (A(i),))); let c = Rc::new(0); w.par_for_each::<&A>(move |_| drop(c.clone())); found(\"an Rc copied by several threads\")" }
        { "w.extend((0..9999).map(|i| (A(i),))); let c = std::sync::Arc::new(0); w.par_for_each::<&A>(move |_| drop(c.clone()));" }
    "C12" "exclusive operation on a shared world"
        { "let w = &w; std::thread::scope(|s| { for _ in 0..2 { s.spawn(move || { w.create((A(1),)); }); } }); if w.entities().len() > 1 { found(\"a shared world changed by several threads\") }" }
        { "let w = &w; std::thread::scope(|s| { for _ in 0..2 { s.spawn(move || { w.create_atomic(); }); } });" }
    "C12" "maintenance of a shared world"
        { "let a = w.create_atomic(); let w = &w; std::thread::scope(|s| { s.spawn(move || w.maintain()); }); if w.contains_entity(a) { found(\"a shared world changed by another thread\") }" }
        { "let a = w.create_atomic(); let w = &mut w; std::thread::scope(|s| { s.spawn(move || w.maintain()); });" }
}

struct Tools {
    deps: String,
    sparsey: String,
    rayon: String,
    dir: String,
}

fn rlib(dir: &str, name: &str) -> String {
    let p = format!("lib{name}-");
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .expect("deps")
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|x| x.file_name().unwrap().to_string_lossy().starts_with(&p) && x.extension().is_some_and(|x| x == "rlib"))
        .collect();
    // The one built last.
    v.sort_by_key(|x| x.metadata().and_then(|m| m.modified()).ok());
    v.pop().unwrap_or_else(|| panic!("no {name} in {dir}")).to_string_lossy().into_owned()
}

/// Whether it compiles, and the compiler's words.
fn compile(t: &Tools, file: &str, body: &str, link: bool) -> (bool, String) {
    let src = format!("{}/{file}.rs", t.dir);
    std::fs::write(&src, format!("{PRELUDE}    {body}\n}}\n")).expect("write");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "bin", "-C", "debug-assertions=on", "-A", "warnings", "--cap-lints", "allow"]);
    c.args(["--extern", &format!("sparsey={}", t.sparsey), "--extern", &format!("rayon={}", t.rayon)]);
    c.args(["-L", &format!("dependency={}", t.deps), "--out-dir", &t.dir, &src]);
    c.args(if link { ["--emit", "link"] } else { ["--emit", "metadata"] });
    let o = c.output().expect("rustc");
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}

enum Verdict {
    /// With the codes of the compiler's errors.
    Refused(String),
    RefusedAtRunTime,
    Harmless,
    Unknown(String),
    Bad(String),
}

fn judge(t: &Tools, i: usize, p: &Program) -> Verdict {
    let (ok, why) = compile(t, &format!("good{i}"), p.good, false);
    if !ok {
        return Verdict::Unknown(why);
    }
    let (ok, why) = compile(t, &format!("bad{i}"), p.bad, true);
    if !ok {
        let mut codes: Vec<&str> = why.lines().filter_map(|l| l.strip_prefix("error[")).filter_map(|l| l.split(']').next()).collect();
        codes.dedup();
        return Verdict::Refused(codes.join(" "));
    }
    let o = Command::new("timeout").args(["60", &format!("{}/bad{i}", t.dir)]).output().expect("run");
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    match o.status.code() {
        Some(10) => Verdict::Bad(out.trim().to_string()),
        Some(101) => Verdict::RefusedAtRunTime,
        Some(0) => Verdict::Harmless,
        c => Verdict::Bad(format!("the program ended with {c:?} ({})", o.status)),
    }
}

fn main() {
    let check = std::env::args().nth(1).unwrap_or_default();
    if check == "idle" {
        return;
    }
    let env = Env::from_env();
    let mut st = Stats::default();
    let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps").to_string_lossy().into_owned();
    let dir = format!("{deps}/../hostile-{check}");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let t = Tools { sparsey: rlib(&deps, "sparsey"), rayon: rlib(&deps, "rayon"), deps, dir };
    let mine: Vec<(usize, &Program)> = PROGRAMS.iter().enumerate().filter(|(_, p)| p.check == check).collect();
    let next = Mutex::new(mine.iter());
    let done = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| loop {
                let Some(&(i, p)) = next.lock().unwrap().next() else { break };
                env.note_case(p.name);
                let v = judge(&t, i, p);
                done.lock().unwrap().push((i, p, v));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    let mut bad = None;
    for (i, p, v) in done {
        match v {
            Verdict::Refused(c) => {
                st.eval(Some(mix(i as u64, 0x4057)));
                st.add("hostile_programs_refused_by_the_compiler", 1);
                st.sample(24, || format!("program \"{}\" is refused: {c}", p.name));
            }
            Verdict::RefusedAtRunTime => {
                st.eval(Some(mix(i as u64, 0x4058)));
                st.add("hostile_programs_refused_at_run_time", 1);
            }
            Verdict::Harmless => {
                st.eval(Some(mix(i as u64, 0x4059)));
                st.add("hostile_programs_without_effect", 1);
            }
            Verdict::Unknown(w) => {
                eprintln!("the twin of \"{}\" does not compile: {w}", p.name);
                st.add("hostile_programs_unknown", 1);
            }
            Verdict::Bad(m) => {
                bad.get_or_insert((p, m));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&t.dir);
    match bad {
        None => emit(&env, &report_json("ok", None, &st)),
        Some((p, m)) => {
            let v = Viol { oracle: "hostile-program", msg: format!("the safe program \"{}\" compiles and shows: {m}", p.name) };
            emit(&env, &report_json("violation", Some((&v, p.name, &format!("{PRELUDE}    {}\n}}\n", p.bad))), &st));
            std::process::exit(10);
        }
    }
}

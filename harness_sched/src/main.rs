//! P16 with the map's own code on scheduled primitives: the schedule is part of the generated case.

#![allow(clippy::all)]
mod shim;
include!(concat!(env!("OUT_DIR"), "/map.rs"));

use fxhash::FxBuildHasher;
use monomap::{MonoOptions, MonoReadHandle, MonoWriteHandle};
use pbt::{ensure, fail, sub, Res, Rng, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// Which values live, and what was done to them while they were looked at.
#[derive(Default)]
struct Ledger {
    next: u64,
    alive: BTreeSet<u64>,
    /// value -> readers looking at it now
    held: BTreeMap<u64, usize>,
    wrong: Vec<String>,
}
type Book = Arc<Mutex<Ledger>>;

struct Val {
    id: u64,
    gen: u64,
    book: Book,
}

impl Val {
    fn new(book: &Book, gen: u64) -> Val {
        let mut b = book.lock().unwrap();
        b.next += 1;
        let id = b.next;
        b.alive.insert(id);
        Val { id, gen, book: book.clone() }
    }
    fn touch(&self, what: &str) {
        let mut b = self.book.lock().unwrap();
        if b.held.get(&self.id).cloned().unwrap_or(0) > 0 {
            b.wrong.push(format!("a value of generation {} was {} while it was read", self.gen, what));
        }
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        shim::point();
        Val::new(&self.book, self.gen)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.touch("dropped");
        self.book.lock().unwrap().alive.remove(&self.id);
    }
}

type Reader = MonoReadHandle<u16, Val, u64, FxBuildHasher>;
type Writer = MonoWriteHandle<u16, Val, u64, FxBuildHasher>;

fn generation(seed: u64, g: u64, keys: u16) -> BTreeSet<u16> {
    (0..keys).filter(|k| Rng(seed ^ g.wrapping_mul(0x9E37) ^ ((*k as u64) << 40)).next() % 4 != 0).collect()
}

/// looks at a value for some points of the schedule
fn look(v: &Val, dwell: u64, r: &Reader, nested: u64) -> u64 {
    let (id, book, gen) = (v.id, v.book.clone(), v.gen);
    *book.lock().unwrap().held.entry(id).or_insert(0) += 1;
    if nested == 1 {
        r.len();
    }
    if nested == 2 {
        r.for_each(|_, v| {
            look(v, 1, r, 0);
        });
    }
    for _ in 0..dwell {
        shim::point();
    }
    let mut b = book.lock().unwrap();
    *b.held.get_mut(&id).unwrap() -= 1;
    if !b.alive.contains(&id) {
        b.wrong.push(format!("a value of generation {} is gone while it is read", gen));
    }
    gen
}

struct Shared {
    started: u64,
    published: u64,
    gone: bool,
}

fn p16_schedules(src: &mut Src) -> Res {
    let keys = src.usize(1, 4) as u16;
    let nread = src.usize(1, 3);
    let seed = src.draw(1 << 30);
    let gens = src.usize(1, 6) as u64;
    // what the writer does after the writes of each generation
    let steps: Vec<u64> = (0..gens).map(|_| src.draw(8)).collect();
    let drop_writer = src.bool();
    // what the readers do: kind, dwell
    let plans: Vec<Vec<(u64, u64, u16)>> = (0..nread).map(|_| (0..src.usize(1, 6)).map(|_| (src.draw(10), src.draw(8), src.draw(keys as u64) as u16)).collect()).collect();
    // reads of the same handle made inside its reads
    let nested: Vec<u64> = (0..nread).map(|_| *src.pick(&[0u64, 0, 1, 2])).collect();
    let len = src.usize(0, 160);
    let density = *src.pick(&[2u64, 4, 8, 20]);
    let choices: Vec<u8> = (0..len).map(|_| if src.draw(density) == density - 1 { src.draw(64) as u8 } else { 0 }).collect();
    src.describe(|| format!("{} keys, {} generations ending {:?}, readers {:?} with reads inside {:?}, schedule {:?}", keys, gens, steps, plans, nested, choices));
    let book: Book = Default::default();
    let (r0, mut w): (Reader, Writer) = MonoOptions::default().with_meta(0u64).construct();
    let factory = r0.factory();
    // some readers know the map before it is filled, some after
    let early = src.bool();
    let mut prev: BTreeSet<u16> = BTreeSet::new();
    let first = src.bool();
    let shared = Mutex::new(Shared { started: 0, published: 0, gone: false });
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail_with = |m: String| errors.lock().unwrap().push(m);
    let mut write = |w: &mut Writer, g: u64| {
        let next = generation(seed, g, keys);
        for k in 0..keys {
            match (prev.contains(&k), next.contains(&k)) {
                (_, false) => {
                    w.remove(k);
                }
                (true, true) if (g + k as u64) % 2 == 0 => {
                    w.update(k, move |v| {
                        v.touch("changed");
                        v.gen = g;
                        shim::point();
                    });
                }
                (_, true) => {
                    w.insert(k, Val::new(&book, g));
                }
            }
        }
        w.set_meta(g);
        prev = next;
    };
    if first {
        write(&mut w, 1);
        shared.lock().unwrap().started = 1;
        w.refresh();
        shared.lock().unwrap().published = 1;
    }
    let base = first as u64;
    let last = base + gens;
    let mut kept: Option<Writer> = None;
    let reads = Mutex::new((0usize, BTreeSet::new()));
    let mut threads: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    {
        let (shared, kept, steps) = (&shared, &mut kept, &steps);
        threads.push(Box::new(move || {
            let mut w = w;
            for g in base + 1..=last {
                write(&mut w, g);
                shared.lock().unwrap().started = g;
                match steps[(g - base - 1) as usize] {
                    0..=4 => {
                        w.refresh();
                        shared.lock().unwrap().published = g;
                    }
                    5 => {
                        w.refresh();
                        w.refresh();
                        shared.lock().unwrap().published = g;
                    }
                    6 => {
                        w.flush();
                        shared.lock().unwrap().published = g;
                    }
                    _ if g == last => {
                        w.refresh();
                        shared.lock().unwrap().published = g;
                    }
                    // published with the next one
                    _ => {}
                }
            }
            if drop_writer {
                shared.lock().unwrap().gone = true;
                drop(w);
            } else {
                *kept = Some(w);
            }
        }));
    }
    for (plan, nested) in plans.iter().zip(nested) {
        let factory = factory.clone();
        let handle = if early { Some(factory.handle()) } else { None };
        let (shared, reads, fail_with) = (&shared, &reads, &fail_with);
        threads.push(Box::new(move || {
            let mut r = handle.unwrap_or_else(|| factory.handle());
            let mut seen = 0;
            for (kind, dwell, k) in plan {
                match kind {
                    0 => {
                        r = r.clone();
                        continue;
                    }
                    1 => {
                        r = factory.handle();
                        continue;
                    }
                    _ => {}
                }
                let lo = shared.lock().unwrap().published;
                // (generation by the meta, by the values, keys seen)
                let got: Option<(u64, Vec<u64>, BTreeSet<u16>)> = if *kind < 6 {
                    let mut one = BTreeSet::new();
                    r.meta_get_and(k, |v| {
                        one.insert(*k);
                        look(v, *dwell, &r, nested)
                    })
                    .map(|(v, m)| (m, v.into_iter().collect(), one))
                } else {
                    let (mut all, mut values) = (BTreeSet::new(), vec![]);
                    r.for_each(|k, v| {
                        all.insert(*k);
                        values.push(look(v, *dwell, &r, nested));
                    });
                    values.first().cloned().map(|g| (g, values, all))
                };
                let (hi, gone) = {
                    let s = shared.lock().unwrap();
                    (s.started, s.gone)
                };
                match got {
                    None => {
                        if *kind < 6 && lo > 0 && !gone {
                            fail_with(format!("nothing is readable after generation {} was published", lo));
                        }
                    }
                    Some((g, values, all)) => {
                        if g < lo || g > hi || g < seen {
                            fail_with(format!("a read begun after generation {} saw {} (the last one seen was {}, begun are {})", lo, g, seen, hi));
                        }
                        seen = g;
                        let want = generation(seed, g, keys);
                        let right = if *kind < 6 { all.contains(k) == want.contains(k) || g == 0 } else { all == want };
                        if !right || values.iter().any(|x| *x != g) {
                            fail_with(format!("generation {} reads as {:?} of {:?}, it holds {:?}", g, values, all, want));
                        }
                        let mut r = reads.lock().unwrap();
                        r.0 += 1;
                        r.1.insert(g);
                    }
                }
            }
        }));
    }
    let out = shim::run(choices, 60_000, threads);
    if let Some(p) = out.panics.first() {
        fail!("sched_panic", "{}", p);
    }
    if let Some(e) = errors.lock().unwrap().first() {
        fail!("sched_read", "{}", e);
    }
    if let Some(e) = book.lock().unwrap().wrong.first() {
        fail!("sched_held", "{}", e);
    }
    let r = factory.handle();
    if let Some(w) = &kept {
        let mut all = BTreeMap::new();
        w.for_each(|k, v| {
            all.insert(*k, v.gen);
        });
        let want: BTreeMap<u16, u64> = generation(seed, last, keys).into_iter().map(|k| (k, last)).collect();
        ensure!(all == want, "sched_last", "the last generation {} reads as {:?}, it holds {:?}", last, all, want);
        ensure!(r.meta() == Some(last), "sched_last", "the meta of generation {} reads as {:?}", last, r.meta());
    } else {
        ensure!(r.is_destroyed() && r.len() == 0, "sched_gone", "entries are read after the writer is gone");
    }
    drop(kept);
    drop(r);
    drop(r0);
    drop(factory);
    let b = book.lock().unwrap();
    ensure!(b.alive.is_empty(), "sched_leak", "{} values were never dropped", b.alive.len());
    let (n, distinct) = &*reads.lock().unwrap();
    if out.switches >= 6 && *n >= 2 {
        src.nontrivial();
    }
    if distinct.len() >= 2 {
        src.class("generations_seen");
    }
    if out.buffered > 0 {
        src.class("store_buffer");
    }
    Ok(())
}

fn main() {
    let mut props = gokocheck::props();
    for p in props.iter_mut().filter(|p| p.id == "P16") {
        p.subs.push(sub("schedules", p16_schedules, 40000, 2000000));
    }
    pbt::main(props)
}

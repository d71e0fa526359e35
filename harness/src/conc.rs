//! P16: the map under the tree, P17: readers of a tree while it is written.

use crate::common::*;
use fxhash::FxBuildHasher;
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::plugins::utils::*;
use goko::verif_hooks::*;
use goko::*;
use pbt::{ensure, fail, sub, Fail, Prop, Res, Rng, Src};
use pointcloud::metrics::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Val = (i64, Arc<()>);
type Reader = MonoReadHandle<u16, Val, u64, FxBuildHasher>;
type Writer = MonoWriteHandle<u16, Val, u64, FxBuildHasher>;

#[derive(Clone, Default, Debug)]
struct Model {
    map: BTreeMap<u16, i64>,
    meta: u64,
}

fn reads(r: &Reader, m: &Model, ready: bool, keys: u16) -> Res {
    let empty = BTreeMap::new();
    let map = if ready { &m.map } else { &empty };
    ensure!(r.len() == map.len(), "len", "len {} of {:?}", r.len(), map);
    ensure!(r.is_empty() == map.is_empty(), "is_empty", "is_empty {} of {:?}", r.is_empty(), map);
    ensure!(!r.is_destroyed(), "destroyed", "the map is destroyed while the writer lives");
    ensure!(r.meta() == Some(m.meta), "meta", "meta {:?} should be {}", r.meta(), m.meta);
    for k in 0..keys {
        let want = map.get(&k).cloned();
        ensure!(r.get_and(&k, |v| v.0) == want, "get", "key {} gives {:?}, it should give {:?}", k, r.get_and(&k, |v| v.0), want);
        ensure!(r.contains_key(&k) == want.is_some(), "contains", "key {} contained {}, it should be {:?}", k, r.contains_key(&k), want);
        let got = r.meta_get_and(&k, |v| v.0);
        let want = if ready { Some((want, m.meta)) } else { None };
        ensure!(got == want, "meta_get", "key {} with meta gives {:?}, it should give {:?}", k, got, want);
    }
    let mut all: BTreeMap<u16, i64> = BTreeMap::new();
    let mut twice = false;
    r.for_each(|k, v| twice |= all.insert(*k, v.0).is_some());
    ensure!(!twice && all == *map, "for_each", "iteration gives {:?}, it should give {:?}", all, map);
    let v: Vec<(u16, i64)> = r.map_into(|k, v| (*k, v.0));
    ensure!(v.len() == map.len() && v.into_iter().collect::<BTreeMap<_, _>>() == *map, "map_into", "a collection differs from {:?}", map);
    Ok(())
}

/// Histories of writes and refreshes against a plain map.
fn p16_model(src: &mut Src) -> Res {
    let token = Arc::new(());
    let keys = src.usize(1, 12) as u16;
    let opts = MonoOptions::default().with_meta(7u64);
    let opts = if src.bool() { opts.with_capacity(src.usize(0, 20)) } else { opts };
    let (r0, mut w): (Reader, Writer) = opts.construct();
    let factory = r0.factory();
    let mut readers = vec![r0];
    let (mut now, mut seen) = (Model { meta: 7, ..Default::default() }, Model { meta: 7, ..Default::default() });
    let mut ready = false;
    let steps = src.usize(1, 40);
    let mut log: Vec<String> = vec![];
    let mut since = 0usize;
    let mut refreshes = 0;
    let mut changes = 0;
    for _ in 0..steps {
        let k = src.draw(keys as u64) as u16;
        match src.draw(12) {
            0 | 1 | 2 => {
                let v = src.draw(100) as i64;
                w.insert(k, (v, token.clone()));
                now.map.insert(k, v);
                since += 1;
                changes += 1;
                log.push(format!("insert {} {}", k, v));
            }
            3 | 4 => {
                let (a, b) = (src.range(0, 3), src.range(0, 9));
                w.update(k, move |v| v.0 = v.0 * a + b);
                if let Some(v) = now.map.get_mut(&k) {
                    *v = *v * a + b;
                }
                since += 1;
                changes += 1;
                log.push(format!("update {} *{}+{}", k, a, b));
            }
            5 => {
                w.remove(k);
                now.map.remove(&k);
                since += 1;
                changes += 1;
                log.push(format!("remove {}", k));
            }
            6 if src.chance(1, 3) => {
                w.purge();
                now.map.clear();
                since += 1;
                changes += 1;
                log.push("purge".into());
            }
            7 => {
                let n = src.usize(0, 4);
                let mut items: Vec<(u16, i64)> = (0..n).map(|_| (src.draw(keys as u64) as u16, src.draw(50) as i64)).collect();
                if src.chance(1, 12) {
                    // a long one, over keys that are not touched otherwise as well
                    let more = src.usize(1, 400);
                    items.extend((0..more).map(|i| ((i * 7 % 311) as u16, i as i64)));
                }
                let n = items.len();
                w.extend(items.iter().map(|(k, v)| (*k, (*v, token.clone()))));
                for (k, v) in &items {
                    now.map.insert(*k, *v);
                }
                since += n;
                changes += n;
                log.push(format!("extend {:?}", items));
            }
            8 => {
                let m = src.draw(1000);
                let old = w.set_meta(m);
                ensure!(old == now.meta, "set_meta", "set_meta gave back {}, it was {}", old, now.meta);
                now.meta = m;
                log.push(format!("meta {}", m));
            }
            9 => {
                w.flush();
                log.push("flush".into());
                if since > 0 || !ready {
                    seen = now.clone();
                    ready = true;
                    refreshes += 1;
                    since = 0;
                } else {
                    // nothing to publish; meta alone may or may not be
                    if readers[0].meta() == Some(now.meta) {
                        seen.meta = now.meta;
                    }
                }
            }
            10 => match src.draw(3) {
                0 => readers.push(factory.handle()),
                1 => {
                    let c = readers[src.usize(0, readers.len() - 1)].clone();
                    readers.push(c);
                }
                _ => {
                    if readers.len() > 1 {
                        let i = src.usize(0, readers.len() - 1);
                        readers.remove(i);
                    }
                }
            },
            _ => {
                w.refresh();
                seen = now.clone();
                ready = true;
                refreshes += 1;
                since = 0;
                log.push("refresh".into());
            }
        }
        ensure!(w.pending().is_empty() || since > 0, "pending", "{} writes pending after a refresh", w.pending().len());
        for r in &readers {
            if let Err(e) = reads(r, &seen, ready, keys) {
                return Err(Fail { what: format!("{} after {:?}", e.what, log), sig: e.sig });
            }
        }
        // the writer reads like a reader
        if let Err(e) = reads(&*w, &seen, ready, keys) {
            return Err(Fail { what: format!("(writer) {} after {:?}", e.what, log), sig: e.sig });
        }
    }
    src.describe(|| format!("{:?}", log));
    drop(w);
    for r in &readers {
        let gone = r.is_destroyed() && r.len() == 0 && r.is_empty() && r.meta().is_none() && (0..keys).all(|k| r.get_and(&k, |v| v.0).is_none() && !r.contains_key(&k));
        ensure!(gone, "after_drop", "a reader still sees entries after the writer is gone");
    }
    drop(readers);
    drop(factory);
    ensure!(Arc::strong_count(&token) == 1, "leak", "{} values were not freed after {:?}", Arc::strong_count(&token) - 1, log);
    if refreshes >= 3 && changes >= 4 {
        src.nontrivial();
    }
    Ok(())
}

type VReader = MonoReadHandle<u16, Vec<u64>, u64, FxBuildHasher>;
type VWriter = MonoWriteHandle<u16, Vec<u64>, u64, FxBuildHasher>;

/// What generation g of the map holds: every generation rewrites all keys and drops some.
fn generation(seed: u64, g: u64, keys: u16) -> BTreeMap<u16, u64> {
    (0..keys).filter(|k| Rng(seed ^ g.wrapping_mul(0x9E37) ^ ((*k as u64) << 40)).next() % 4 != 0).map(|k| (k, g)).collect()
}

fn write_generation(w: &mut VWriter, seed: u64, g: u64, keys: u16, prev: &BTreeMap<u16, u64>, style: u64) {
    let next = generation(seed, g, keys);
    for k in 0..keys {
        match (prev.contains_key(&k), next.contains_key(&k)) {
            (_, false) => {
                w.remove(k);
            }
            (true, true) if (style + k as u64) % 2 == 0 => {
                w.update(k, move |v| v.iter_mut().for_each(|x| *x = g));
            }
            (_, true) => {
                w.insert(k, vec![g; 3 + (k as usize % 5)]);
            }
        }
    }
    w.set_meta(g);
}

fn snapshot(r: &VReader, dwell: u64) -> Result<Option<(u64, usize)>, String> {
    // (generation, entries) of one consistent pass
    let mut gens: Vec<u64> = vec![];
    let mut keys = 0;
    let mut bad = None;
    r.for_each(|k, v| {
        keys += 1;
        if dwell == 1 {
            std::thread::yield_now();
        } else if dwell > 1 {
            for _ in 0..dwell {
                std::hint::spin_loop();
            }
        }
        if v.len() != 3 + (*k as usize % 5) || v.iter().any(|x| *x != v[0]) {
            bad = Some(format!("the value of key {} is torn: {:?}", k, v));
        }
        gens.push(v.first().cloned().unwrap_or(0));
    });
    if let Some(b) = bad {
        return Err(b);
    }
    if gens.is_empty() {
        return Ok(None);
    }
    if gens.iter().any(|g| *g != gens[0]) {
        return Err(format!("one pass saw generations {:?}", gens));
    }
    Ok(Some((gens[0], keys)))
}

fn p16_storm(src: &mut Src) -> Res {
    let keys = src.usize(1, 16) as u16;
    let nread = src.usize(1, 4);
    let gens = src.usize(5, if src.tier_thorough { 300 } else { 80 }) as u64;
    let seed = src.draw(1 << 40);
    let pause = src.draw(3);
    src.describe(|| format!("{} keys, {} readers, {} generations, seed {}", keys, nread, gens, seed));
    let (r0, w): (VReader, VWriter) = MonoOptions::default().with_meta(0u64).construct();
    let mut slot = Some(w);
    let factory = r0.factory();
    let started = AtomicU64::new(0);
    let published = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let dropped = AtomicBool::new(false);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let passes = AtomicU64::new(0);
    let distinct = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..nread {
            let (factory, started, published, done, dropped, errors, passes, distinct) = (&factory, &started, &published, &done, &dropped, &errors, &passes, &distinct);
            sc.spawn(move || {
                let mut rng = Rng(seed ^ (t as u64 + 1) << 32);
                let mut r = factory.handle();
                let mut last = 0;
                let fail = |m: String| errors.lock().unwrap().push(m);
                loop {
                    let end = done.load(Ordering::SeqCst);
                    match rng.next() % 12 {
                        0 => r = r.clone(),
                        1 => r = factory.handle(),
                        _ => {}
                    }
                    let dwell = *[0u64, 0, 1, 50].get((rng.next() % 4) as usize).unwrap();
                    let lo = published.load(Ordering::SeqCst);
                    if rng.next() % 3 == 0 {
                        let k = (rng.next() % keys as u64) as u16;
                        let got = r.meta_get_and(&k, |v| v.clone());
                        let hi = started.load(Ordering::SeqCst);
                        match got {
                            None => {
                                if lo > 0 && !dropped.load(Ordering::SeqCst) {
                                    fail(format!("nothing is readable after generation {} was published", lo));
                                    return;
                                }
                            }
                            Some((v, m)) => {
                                if m < lo || m > hi || m < last {
                                    fail(format!("a read started after generation {} saw {} (last seen {}, started {})", lo, m, last, hi));
                                    return;
                                }
                                last = m;
                                let want = generation(seed, m, keys).contains_key(&k);
                                let ok = match &v {
                                    None => !want,
                                    Some(v) => want && v.len() == 3 + (k as usize % 5) && v.iter().all(|x| *x == m),
                                };
                                if !ok {
                                    fail(format!("key {} of generation {} reads {:?}", k, m, v));
                                    return;
                                }
                            }
                        }
                    } else {
                        let got = snapshot(&r, dwell);
                        let hi = started.load(Ordering::SeqCst);
                        match got {
                            Err(e) => {
                                fail(e);
                                return;
                            }
                            Ok(None) => {}
                            Ok(Some((g, n))) => {
                                if g < lo || g > hi || g < last {
                                    fail(format!("a pass started after generation {} saw {} (last seen {}, started {})", lo, g, last, hi));
                                    return;
                                }
                                if g != last {
                                    distinct.fetch_add(1, Ordering::SeqCst);
                                }
                                last = g;
                                if n != generation(seed, g, keys).len() {
                                    fail(format!("a pass over generation {} saw {} entries of {}", g, n, generation(seed, g, keys).len()));
                                    return;
                                }
                            }
                        }
                    }
                    passes.fetch_add(1, Ordering::SeqCst);
                    if end {
                        return;
                    }
                }
            });
        }
        let mut rng = Rng(seed);
        let w = slot.as_mut().unwrap();
        let mut prev = BTreeMap::new();
        for g in 1..=gens {
            let style = rng.next() % 7;
            write_generation(w, seed, g, keys, &prev, style);
            prev = generation(seed, g, keys);
            started.store(g, Ordering::SeqCst);
            w.refresh();
            published.store(g, Ordering::SeqCst);
            if pause == 1 {
                std::thread::yield_now();
            } else if pause == 2 && rng.next() % 4 == 0 {
                std::thread::sleep(Duration::from_micros(rng.next() % 60));
            }
            if !errors.lock().unwrap().is_empty() {
                break;
            }
        }
        let early = rng.next() % 3 == 0;
        if early {
            // the writer goes away while readers are at work
            dropped.store(true, Ordering::SeqCst);
            slot = None;
            done.store(true, Ordering::SeqCst);
        } else {
            done.store(true, Ordering::SeqCst);
        }
    });
    drop(slot);
    let errors = errors.into_inner().unwrap();
    ensure!(errors.is_empty(), "storm", "{:?}", errors);
    if distinct.load(Ordering::SeqCst) >= 3 {
        src.nontrivial();
    }
    Ok(())
}

/// A reader stays inside one read while the writer works on: what it reads does not change and stays valid, and the
/// writer gets on as soon as the reader leaves.
fn p16_hold(src: &mut Src) -> Res {
    let wait = *src.pick(&[1500u64, 1500, 1500, 5000, 30000]);
    hold(src, Duration::from_micros(wait))
}

/// The same with a read that takes seconds.
fn p16_patient(src: &mut Src) -> Res {
    let ms = src.usize(1200, 2600) as u64;
    hold(src, Duration::from_millis(ms))
}

/// A read made inside another read of the same handle, before the writer goes on.
fn inside(r: &VReader, kind: u64, k: u16, g: u64, n: usize) -> Result<(), String> {
    let ok = match kind {
        0 => r.len() == n,
        1 => r.get_and(&k, |v| v[0]) == Some(g),
        2 => r.meta() == Some(g),
        3 => {
            let mut m = 0;
            r.for_each(|_, v| m += (v[0] == g) as usize);
            m == n
        }
        4 => r.meta_get_and(&k, |v| v[0]) == Some((Some(g), g)),
        _ => r.get_and(&k, |v| (v[0], r.len(), r.contains_key(&k))) == Some((g, n, true)),
    };
    if ok {
        Ok(())
    } else {
        Err(format!("a read (kind {}) inside a read of generation {} sees something else", kind, g))
    }
}

fn hold(src: &mut Src, wait: Duration) -> Res {
    let keys = src.usize(1, 8) as u16;
    let seed = src.draw(1 << 40);
    let before = src.usize(1, 4) as u64;
    let during = src.usize(1, 4) as u64;
    let rounds = src.usize(1, 3);
    let idle = src.usize(0, 2);
    let warm = src.usize(0, 2);
    // reads made on the same handle inside the read
    let nested: Vec<u64> = (0..*src.pick(&[0usize, 0, 1, 1, 3])).map(|_| src.draw(6)).collect();
    src.describe(|| format!("{} keys, {} generations, then {} rounds of {} under a reader, {} idle readers, reads inside {:?}", keys, before, rounds, during, idle, nested));
    let (r, mut w): (VReader, VWriter) = MonoOptions::default().with_meta(0u64).construct();
    let _idle: Vec<VReader> = (0..idle).map(|_| r.clone()).collect();
    let mut prev = BTreeMap::new();
    let mut g = 0;
    for _ in 0..before {
        g += 1;
        write_generation(&mut w, seed, g, keys, &prev, g);
        prev = generation(seed, g, keys);
        w.refresh();
        for _ in 0..warm {
            r.len();
        }
    }
    let mut held = false;
    for round in 0..rounds {
        let base = generation(seed, g, keys);
        let (go_tx, go_rx) = channel::<()>();
        let (done_tx, done_rx) = channel::<()>();
        let mut bad: Option<String> = None;
        let style = seed.wrapping_add(round as u64);
        let wr = &mut w;
        let g0 = g;
        let end = std::thread::scope(|sc| {
            let h = sc.spawn(move || {
                let _ = go_rx.recv();
                let mut prev = generation(seed, g0, keys);
                for i in 1..=during {
                    write_generation(wr, seed, g0 + i, keys, &prev, style);
                    prev = generation(seed, g0 + i, keys);
                    wr.refresh();
                }
                let _ = done_tx.send(());
            });
            let mut first = true;
            let check = |k: &u16, v: &Vec<u64>| -> Option<String> {
                if v.len() != 3 + (*k as usize % 5) || v.iter().any(|x| *x != g0) {
                    Some(format!("key {} reads {:?} inside a read of generation {}", k, v, g0))
                } else {
                    None
                }
            };
            let mut n = 0;
            r.for_each(|k, v| {
                n += 1;
                if let Some(e) = check(k, v) {
                    bad = Some(e);
                }
                if first {
                    first = false;
                    held = true;
                    for i in &nested {
                        if let Err(e) = inside(&r, *i, *k, g0, base.len()) {
                            bad = Some(e);
                        }
                    }
                    let _ = go_tx.send(());
                    // the writer finishes, or waits for us
                    let _ = done_rx.recv_timeout(wait);
                }
                if let Some(e) = check(k, v) {
                    bad = Some(e);
                }
            });
            if first {
                let _ = go_tx.send(());
            }
            if bad.is_none() && n != base.len() {
                bad = Some(format!("a read of generation {} saw {} entries of {}", g0, n, base.len()));
            }
            let t0 = Instant::now();
            h.join().map_err(|_| "the writer panicked".to_string())?;
            Ok::<_, String>(t0.elapsed())
        });
        if let Err(e) = end {
            fail!("hold_writer", "{}", e);
        }
        if let Some(e) = bad {
            fail!("hold", "{}", e);
        }
        g += during;
        match snapshot(&r, 0) {
            Err(e) => fail!("hold_after", "{}", e),
            Ok(s) => {
                let want = generation(seed, g, keys);
                ensure!(s.map(|x| x.1).unwrap_or(0) == want.len() && s.map(|x| x.0 == g).unwrap_or(true), "hold_after", "after generation {} a read sees {:?}, it should see {} entries", g, s, want.len());
            }
        }
        ensure!(r.meta() == Some(g), "hold_meta", "meta {:?} after generation {}", r.meta(), g);
    }
    if held && during >= 2 {
        src.nontrivial();
    }
    Ok(())
}

/// The writer goes away while a reader is inside a read: the values stay until the reader leaves.
fn p16_drop(src: &mut Src) -> Res {
    let token = Arc::new(());
    let keys = src.usize(1, 8) as u16;
    let refreshes = src.usize(1, 4);
    let trailing = src.usize(0, 3);
    let idle = src.usize(0, 2);
    let reads_between: Vec<usize> = (0..refreshes).map(|_| src.usize(0, 2)).collect();
    let nested = src.usize(0, 2);
    src.describe(|| format!("{} keys, {} refreshes with reads {:?}, {} unpublished writes, {} idle readers", keys, refreshes, reads_between, trailing, idle));
    let (r, mut w): (Reader, Writer) = MonoOptions::default().with_meta(0u64).construct();
    let idle: Vec<Reader> = (0..idle).map(|_| r.clone()).collect();
    for i in 0..refreshes {
        for k in 0..keys {
            w.insert(k, (i as i64, token.clone()));
        }
        w.refresh();
        (0..reads_between[i]).for_each(|_| {
            r.len();
        });
    }
    for k in 0..trailing {
        w.insert(k as u16, (-1, token.clone()));
    }
    let mut bad = None;
    let mut seen = 0;
    let mut slot = Some(w);
    std::thread::scope(|sc| {
        let (done_tx, done_rx) = channel::<()>();
        r.for_each(|k, v| {
            if seen == 0 {
                for _ in 0..nested {
                    if r.len() != keys as usize || r.get_and(k, |v| v.0) != Some(v.0) {
                        bad = Some("a read inside a read sees something else".to_string());
                    }
                }
                let w = slot.take();
                let tx = done_tx.clone();
                sc.spawn(move || {
                    drop(w);
                    let _ = tx.send(());
                });
                let _ = done_rx.recv_timeout(Duration::from_micros(1500));
                // this copy of the map still holds all its values
                if Arc::strong_count(&token) < 1 + keys as usize {
                    bad = Some(format!("{} of {} values are alive inside a read", Arc::strong_count(&token) - 1, keys));
                }
            }
            if bad.is_none() && v.0 != refreshes as i64 - 1 {
                bad = Some(format!("key {} reads {} inside a read", k, v.0));
            }
            seen += 1;
        });
    });
    if let Some(e) = bad {
        fail!("drop_read", "{}", e);
    }
    ensure!(seen == keys as usize, "drop_seen", "{} entries of {}", seen, keys);
    ensure!(r.is_destroyed() && r.len() == 0, "drop_after", "the map is still there");
    drop(r);
    drop(idle);
    ensure!(Arc::strong_count(&token) == 1, "drop_leak", "{} values were not freed", Arc::strong_count(&token) - 1);
    src.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- P17

struct Expect {
    queries: Vec<(Vec<f32>, usize)>,
    knn: Vec<Vec<(f32, usize)>>,
    routing: Vec<Vec<(f32, usize)>>,
    paths: Vec<Vec<(f32, Addr)>>,
    known: Vec<(usize, Vec<(f32, Addr)>)>,
    dump: Dump,
    cov: BTreeMap<Addr, Vec<usize>>,
}

/// One look at everything a reader offers; `full` asks for all plugins.
fn look(r: &CoverTreeReader<AnyCloud<L2>>, e: &Expect, rng: &mut Rng) -> Result<(), String> {
    let i = (rng.next() % e.queries.len() as u64) as usize;
    let (q, k) = &e.queries[i];
    match rng.next() % 6 {
        0 => {
            let got = r.knn(&&q[..], *k).map_err(|x| format!("{:?}", x))?;
            if got != e.knn[i] {
                return Err(format!("nearest neighbours of {:?} are {:?}, they were {:?}", q, got, e.knn[i]));
            }
        }
        1 => {
            let got = r.routing_knn(&&q[..], *k).map_err(|x| format!("{:?}", x))?;
            if got != e.routing[i] {
                return Err(format!("nearest nodes of {:?} are {:?}, they were {:?}", q, got, e.routing[i]));
            }
        }
        2 => {
            let got = r.path(&&q[..]).map_err(|x| format!("{:?}", x))?;
            if got != e.paths[i] {
                return Err(format!("path of {:?} is {:?}, it was {:?}", q, got, e.paths[i]));
            }
        }
        3 => {
            let p = (rng.next() % e.known.len() as u64) as usize;
            let (p, want) = &e.known[p];
            let got = r.known_path(*p).map_err(|x| format!("{:?}", x))?;
            if got != *want {
                return Err(format!("path of point {} is {:?}, it was {:?}", p, got, want));
            }
        }
        4 => {
            dump_same(&e.dump, &dump(r))?;
            if r.node_count() != e.dump.len() {
                return Err(format!("node_count {} of {}", r.node_count(), e.dump.len()));
            }
        }
        _ => {
            let all: Vec<&Addr> = e.dump.keys().collect();
            for _ in 0..4 {
                let a = *all[(rng.next() % all.len() as u64) as usize];
                plugin_at(r, a, e, false)?;
            }
        }
    }
    Ok(())
}

/// The components of a node are whole and right, or not there yet.
fn plugin_at(r: &CoverTreeReader<AnyCloud<L2>>, a: Addr, e: &Expect, all: bool) -> Result<(), String> {
    let want = e.cov[&a].len();
    let d = r.get_node_plugin_and::<Dirichlet, _, _>(a, |p| (p.total(), p.prob_vector()));
    if let Some((t, pv)) = d {
        let kids = pv.map(|x| x.0.len()).unwrap_or(0);
        if (t - want as f64).abs() > 1e-9 || kids != e.dump[&a].all_children().len() {
            return Err(format!("the distribution of {:?} weighs {} over {} children, it covers {}", a, t, kids, want));
        }
    } else if all {
        return Err(format!("{:?} has no distribution", a));
    }
    let g = r.get_node_plugin_and::<DiagGaussian, _, _>(a, |p| p.count());
    if let Some(c) = g {
        if c != want {
            return Err(format!("the gaussian of {:?} counts {}, it covers {}", a, c, want));
        }
    } else if all {
        return Err(format!("{:?} has no gaussian", a));
    }
    let c = r.get_node_plugin_and::<CoverageIndexes, _, _>(a, |p| p.point_indexes().len());
    if let Some(c) = c {
        if c != want {
            return Err(format!("the list of {:?} has {} points, it covers {}", a, c, want));
        }
    } else if all {
        return Err(format!("{:?} has no list", a));
    }
    Ok(())
}

fn p17_readers(src: &mut Src) -> Res {
    let data = gen_points(src, 60);
    let p = gen_params(src, data.n);
    let mut w = made::<L2>(src, &data, &p);
    let r = w.reader();
    let nq = src.usize(1, 5);
    let queries: Vec<(Vec<f32>, usize)> = (0..nq).map(|_| (gen_query(src, &data), src.usize(1, 6))).collect();
    let nread = src.usize(1, 4);
    let seed = src.draw(1 << 40);
    let extra = src.usize(0, 4);
    src.describe(|| format!("{} {:?} {} readers {} further writes", data.show(), p, nread, extra));
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    let e = Expect {
        knn: queries.iter().map(|(q, k)| r.knn(&&q[..], *k).unwrap()).collect(),
        routing: queries.iter().map(|(q, k)| r.routing_knn(&&q[..], *k).unwrap()).collect(),
        paths: queries.iter().map(|(q, _)| r.path(&&q[..]).unwrap()).collect(),
        known: data.all_ids().into_iter().map(|i| (i, r.known_path(i).unwrap())).collect(),
        queries,
        dump: d,
        cov,
    };
    let mut order = vec![0, 1, 2];
    src.shuffle(&mut order);
    let more: Vec<u64> = (0..extra).map(|_| src.draw(6)).collect();
    let done = AtomicBool::new(false);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let looks = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..nread {
            let mine = r.clone();
            let (e, done, errors, looks) = (&e, &done, &errors, &looks);
            sc.spawn(move || {
                let mut r = mine;
                let mut rng = Rng(seed ^ (t as u64) << 50);
                loop {
                    let end = done.load(Ordering::SeqCst);
                    if rng.next() % 16 == 0 {
                        r = r.clone();
                    }
                    if let Err(x) = look(&r, e, &mut rng) {
                        errors.lock().unwrap().push(x);
                        return;
                    }
                    looks.fetch_add(1, Ordering::SeqCst);
                    if end {
                        return;
                    }
                }
            });
        }
        let run = |w: &mut CoverTreeWriter<AnyCloud<L2>>, i: u64| match i {
            0 => w.add_plugin::<GokoDirichlet>(GokoDirichlet::default()),
            1 => w.add_plugin::<GokoDiagGaussian>(GokoDiagGaussian::recursive()),
            2 => w.add_plugin::<GokoCoverageIndexes>(GokoCoverageIndexes::new()),
            3 => w.add_plugin::<GokoCategorical>(GokoCategorical {}),
            4 => w.refresh_final_indexes(),
            _ => w.refresh(),
        };
        for i in order.iter() {
            run(&mut w, *i as u64);
        }
        for i in &more {
            run(&mut w, *i);
        }
        done.store(true, Ordering::SeqCst);
    });
    let errors = errors.into_inner().unwrap();
    ensure!(errors.is_empty(), "reader", "{:?}", errors);
    for a in e.dump.keys() {
        if let Err(x) = plugin_at(&r, *a, &e, true) {
            fail!("after", "{}", x);
        }
    }
    if let Err(x) = dump_same(&e.dump, &dump(&r)) {
        fail!("tree", "{}", x);
    }
    for (i, want) in &e.known {
        let got = r.known_path(*i).ok();
        ensure!(got.as_ref() == Some(want), "known_after", "path of point {} is {:?}, it was {:?}", i, got, want);
    }
    if looks.load(Ordering::SeqCst) >= 2 && e.dump.len() >= 4 {
        src.nontrivial();
    }
    Ok(())
}

type Node = goko::node::CoverNode<AnyCloud<L2>>;

/// Everything that can be seen of one node.
fn face(n: &Node) -> String {
    let d = n.get_plugin_and::<Dirichlet, _, _>(|p| (p.total().to_bits(), p.prob_vector().map(|x| x.0.len())));
    let c = n.get_plugin_and::<Categorical, _, _>(|p| (p.total().to_bits(), p.prob_vector().map(|x| x.0.len())));
    let g = n.get_plugin_and::<DiagGaussian, _, _>(|p| (p.count(), p.mean().iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    let i = n.get_plugin_and::<CoverageIndexes, _, _>(|p| p.point_indexes().to_vec());
    let kids = n.children().map(|(a, b)| (a, b.to_vec()));
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {} {} {}", d, c, g, i, kids, n.singletons(), n.radius().to_bits(), n.center_index(), n.coverage_count())
}

fn held_look(src: &mut Src, wait: Duration) -> Res {
    let data = gen_points(src, 40);
    let p = gen_params(src, data.n);
    let mut w = made::<L2>(src, &data, &p);
    let before: Vec<u64> = (0..src.usize(0, 3)).map(|_| src.draw(6)).collect();
    let during: Vec<u64> = (0..src.usize(1, 5)).map(|_| src.draw(6)).collect();
    let idle = src.usize(0, 2);
    src.describe(|| format!("{} {:?} writes {:?}, then {:?} under a look of {:?}", data.show(), p, before, during, wait));
    let run = |w: &mut CoverTreeWriter<AnyCloud<L2>>, i: u64| match i {
        0 => w.add_plugin::<GokoDirichlet>(GokoDirichlet::default()),
        1 => w.add_plugin::<GokoDiagGaussian>(GokoDiagGaussian::recursive()),
        2 => w.add_plugin::<GokoCoverageIndexes>(GokoCoverageIndexes::new()),
        3 => w.add_plugin::<GokoCategorical>(GokoCategorical {}),
        4 => w.refresh_final_indexes(),
        _ => w.refresh(),
    };
    before.iter().for_each(|i| run(&mut w, *i));
    let r = w.reader();
    let _idle: Vec<_> = (0..idle).map(|_| r.clone()).collect();
    let d = dump(&r);
    let all: Vec<Addr> = d.keys().cloned().collect();
    let a = *src.pick(&all);
    // looks at other nodes inside the look, of its layer for the most part
    let near: Vec<Addr> = all.iter().filter(|b| b.0 == a.0).cloned().collect();
    let nested: Vec<(u64, Addr)> = (0..*src.pick(&[0usize, 0, 1, 1, 3])).map(|_| (src.draw(4), if src.chance(3, 4) { *src.pick(&near) } else { *src.pick(&all) })).collect();
    let (done_tx, done_rx) = channel::<()>();
    let (one, two, dead) = std::thread::scope(|sc| {
        let mut dead = false;
        let out = r.get_node_and(a, |n| {
            let one = face(n);
            for (kind, b) in &nested {
                dead |= match kind {
                    0 => r.get_node_and(*b, |n| n.coverage_count()).is_none(),
                    1 => r.layer(b.0).len() == 0,
                    2 => r.get_node_and(*b, |_| r.get_node_and(a, |_| ()).is_some()) != Some(true),
                    _ => {
                        let mut m = 0;
                        r.layer(b.0).for_each_node(|_, _| m += 1);
                        m != r.layer(b.0).len()
                    }
                };
            }
            let wr = &mut w;
            let h = sc.spawn(move || {
                during.iter().for_each(|i| run(wr, *i));
                let _ = done_tx.send(());
            });
            let _ = done_rx.recv_timeout(wait);
            (one, face(n), h)
        });
        let (one, two, h) = out.unwrap();
        dead |= h.join().is_err();
        (one, two, dead)
    });
    ensure!(!dead, "held_writer", "the writer panicked under a look at {:?}", a);
    ensure!(one == two, "held_look", "node {:?} was {} and became {} inside one look", a, one, two);
    if let Err(x) = dump_same(&d, &dump(&r)) {
        fail!("held_tree", "{}", x);
    }
    src.nontrivial();
    Ok(())
}

/// One look at a node stays the same however much is written meanwhile.
fn p17_held(src: &mut Src) -> Res {
    let wait = *src.pick(&[300u64, 1000, 1000, 5000, 30000]);
    held_look(src, Duration::from_micros(wait))
}

/// The same with a look that takes seconds.
fn p17_patient(src: &mut Src) -> Res {
    let ms = src.usize(1200, 2600) as u64;
    held_look(src, Duration::from_millis(ms))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16",
            rule: "at least 3 refreshes and 4 writes; readers saw at least 3 generations; a reader was inside a read during 2 refreshes",
            assumptions: vec![
                "schedules are those of the operating system, perturbed by yields, spins and held reads",
                "a handle is used by one read at a time",
            ],
            subs: vec![
                sub("model", p16_model, 30000, 800000),
                sub("storm", p16_storm, 1600, 30000).chunk(100),
                sub("hold", p16_hold, 3000, 80000),
                sub("patient", p16_patient, 16, 80).chunk(1),
                sub("drop", p16_drop, 4000, 80000),
            ],
        },
        Prop {
            id: "P17",
            rule: "at least 2 concurrent looks at a tree of at least 4 nodes",
            assumptions: vec!["schedules are those of the operating system", "the writer outlives the readers' queries"],
            subs: vec![
                sub("readers", p17_readers, 6000, 150000),
                sub("held", p17_held, 3000, 60000),
                sub("patient", p17_patient, 16, 80).chunk(1),
            ],
        },
    ]
}

//! P11-P15: plugins, trackers and distributions, P27: fractal dimensions, P28: baselines.

use crate::common::*;
use goko::node::CoverNode;
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::plugins::utils::*;
use goko::plugins::*;
use goko::*;
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::data_sources::*;
use pointcloud::metrics::*;
use pointcloud::points::SparseRef;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- reference functions

/// ln of the gamma function: shift up and use the Stirling series.
pub fn lgamma(x: f64) -> f64 {
    let mut x = x;
    let mut shift = 0.0;
    while x < 20.0 {
        shift += x.ln();
        x += 1.0;
    }
    let i = 1.0 / x;
    let i2 = i * i;
    (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + i / 12.0 - i * i2 / 360.0 + i * i2 * i2 / 1260.0
        - i * i2 * i2 * i2 / 1680.0
        - shift
}

pub fn psi(x: f64) -> f64 {
    let mut x = x;
    let mut shift = 0.0;
    while x < 20.0 {
        shift += 1.0 / x;
        x += 1.0;
    }
    let i2 = 1.0 / (x * x);
    x.ln() - 0.5 / x - i2 / 12.0 + i2 * i2 / 120.0 - i2 * i2 * i2 / 252.0 + i2 * i2 * i2 * i2 / 240.0 - shift
}

/// KL(Dir(a) || Dir(b)) and the size of its terms.
fn dirichlet_kl(a: &[f64], b: &[f64]) -> (f64, f64) {
    let (ta, tb): (f64, f64) = (a.iter().sum(), b.iter().sum());
    let mut kl = lgamma(ta) - lgamma(tb);
    let mut size = lgamma(ta).abs() + lgamma(tb).abs();
    for (x, y) in a.iter().zip(b) {
        kl += lgamma(*y) - lgamma(*x) + (x - y) * (psi(*x) - psi(ta));
        size += lgamma(*y).abs() + lgamma(*x).abs() + ((x - y) * (psi(*x) - psi(ta))).abs();
    }
    (kl, size)
}

type Counts = BTreeMap<Option<Addr>, f64>;

fn total(c: &Counts) -> f64 {
    c.values().sum()
}

/// The probabilities as counts over `total`, zeros dropped.
fn as_counts(pv: &Option<(Vec<(Addr, f64)>, f64)>, total: f64) -> Result<Counts, String> {
    let mut out = Counts::new();
    if let Some((v, s)) = pv {
        for (a, p) in v {
            if *p != 0.0 && out.insert(Some(*a), p * total).is_some() {
                return Err(format!("{:?} is listed twice in {:?}", a, v));
            }
        }
        if *s != 0.0 {
            out.insert(None, s * total);
        }
    }
    Ok(out)
}

fn counts_are(tag: &str, what: &dyn Fn() -> String, pv: &Option<(Vec<(Addr, f64)>, f64)>, want: &Counts) -> Res {
    let t = total(want);
    ensure!(pv.is_some() == (t > 0.0), format!("{}_some", tag), "{}: {:?} for counts {:?}", what(), pv, want);
    let got = match as_counts(pv, t) {
        Ok(g) => g,
        Err(e) => fail!(format!("{}_twice", tag), "{}: {}", what(), e),
    };
    let want: Counts = want.iter().filter(|(_, c)| **c != 0.0).map(|(k, c)| (*k, *c)).collect();
    let same = got.len() == want.len() && got.iter().all(|(k, c)| want.get(k).map(|w| close(*c, *w, 1e-9, 1e-12)).unwrap_or(false));
    ensure!(same, tag, "{}: the probabilities stand for {:?}, the counts are {:?}", what(), got, want);
    Ok(())
}

// ---------------------------------------------------------------- P11

/// Height of a node; some nodes have no component. Keeps what it was asked.
#[derive(Debug, Clone)]
struct Probe {
    every: i64,
    log: Arc<Mutex<Vec<String>>>,
    calls: Arc<Mutex<BTreeMap<Addr, usize>>>,
    prepared: Arc<Mutex<usize>>,
    mark: u64,
}
#[derive(Debug, Clone, PartialEq)]
struct ProbeNode {
    height: usize,
    addr: Addr,
    mark: u64,
}
impl<D: PointCloud> NodePlugin<D> for ProbeNode {}

fn skipped(a: Addr, every: i64) -> bool {
    every > 0 && (a.0 as i64 * 7 + a.1 as i64).rem_euclid(every) == 0
}

impl<D: PointCloud> GokoPlugin<D> for Probe {
    type NodeComponent = ProbeNode;
    fn prepare_tree(p: &Self, _t: &mut CoverTreeWriter<D>) {
        *p.prepared.lock().unwrap() += 1;
    }
    fn node_component(p: &Self, n: &CoverNode<D>, t: &CoverTreeReader<D>) -> Option<ProbeNode> {
        let a = n.address();
        *p.calls.lock().unwrap().entry(a).or_insert(0) += 1;
        if *p.prepared.lock().unwrap() == 0 {
            p.log.lock().unwrap().push("a node before the tree was prepared".into());
        }
        let mut height = 0;
        for c in NodeInfo::of(n).all_children() {
            let h = t.get_node_plugin_and::<ProbeNode, _, _>(c, |q| (q.height, q.mark, q.addr));
            match h {
                Some((h, m, addr)) => {
                    if m != p.mark || addr != c || skipped(c, p.every) {
                        p.log.lock().unwrap().push(format!("{:?} sees a wrong component of its child {:?}", a, c));
                    }
                    height = height.max(h + 1);
                }
                None => {
                    if !skipped(c, p.every) {
                        p.log.lock().unwrap().push(format!("{:?} does not see its child {:?}", a, c));
                    }
                    height = height.max(1);
                }
            }
        }
        if skipped(a, p.every) {
            None
        } else {
            Some(ProbeNode { height, addr: a, mark: p.mark })
        }
    }
}

fn probe_is<D: PointCloud>(r: &CoverTreeReader<D>, d: &Dump, p: &Probe, root: Addr) -> Res {
    let log = p.log.lock().unwrap();
    ensure!(log.is_empty(), "probe_children", "{:?}", log);
    let calls = p.calls.lock().unwrap();
    ensure!(*p.prepared.lock().unwrap() == 1, "probe_prepared", "the tree was prepared {} times", p.prepared.lock().unwrap());
    for a in d.keys() {
        ensure!(calls.get(a).is_some(), "probe_calls", "node {:?} was never asked for a component", a);
    }
    ensure!(calls.keys().all(|a| d.contains_key(a)), "probe_unknown", "a node that does not exist was asked");
    // heights from the leaves up
    let mut order = vec![];
    let mut stack = vec![root];
    while let Some(a) = stack.pop() {
        order.push(a);
        stack.extend(d[&a].all_children());
    }
    let mut height: BTreeMap<Addr, usize> = BTreeMap::new();
    for a in order.iter().rev() {
        let h = d[a].all_children().iter().map(|c| if skipped(*c, p.every) { 1 } else { height[c] + 1 }).max().unwrap_or(0);
        height.insert(*a, h);
        let got = r.get_node_plugin_and::<ProbeNode, _, _>(*a, |q| q.clone());
        let want = if skipped(*a, p.every) { None } else { Some(ProbeNode { height: h, addr: *a, mark: p.mark }) };
        ensure!(got == want, "probe_component", "node {:?} has {:?}, it was given {:?}", a, got, want);
    }
    let mark = r.get_plugin_and::<Probe, _, _>(|q| q.mark);
    ensure!(mark == Some(p.mark), "probe_tree", "the tree holds {:?} for the plugin {}", mark, p.mark);
    Ok(())
}

fn discrete_is<D: PointCloud>(r: &CoverTreeReader<D>, d: &Dump, cov: &BTreeMap<Addr, Vec<usize>>, cat: bool) -> Res {
    for (a, n) in d {
        let mut want = Counts::new();
        for c in n.all_children() {
            want.insert(Some(c), cov[&c].len() as f64);
        }
        want.insert(None, (n.singletons.len() + n.is_leaf() as usize) as f64);
        let got = if cat {
            r.get_node_plugin_and::<Categorical, _, _>(*a, |p| (p.total(), p.prob_vector()))
        } else {
            r.get_node_plugin_and::<Dirichlet, _, _>(*a, |p| (p.total(), p.prob_vector()))
        };
        match got {
            None => fail!("discrete_missing", "node {:?} has no distribution", a),
            Some((t, pv)) => {
                ensure!(close(t, cov[a].len() as f64, 1e-9, 0.0), "discrete_total", "node {:?} has weight {} and covers {}", a, t, cov[a].len());
                counts_are("discrete", &|| format!("node {:?}", a), &pv, &want)?;
            }
        }
    }
    Ok(())
}

fn gauss_is(r: &CoverTreeReader<AnyCloud<L2>>, data: &Data, d: &Dump, cov: &BTreeMap<Addr, Vec<usize>>, recursive: bool) -> Res {
    for (a, n) in d {
        let pts: Vec<usize> = if recursive {
            cov[a].clone()
        } else {
            let mut v = n.singletons.clone();
            if n.is_leaf() {
                v.push(a.1);
            }
            v
        };
        let g = match r.get_node_plugin_and::<DiagGaussian, _, _>(*a, |p| p.clone()) {
            None => fail!("gauss_missing", "node {:?} has no gaussian", a),
            Some(g) => g,
        };
        ensure!(g.count() == pts.len(), "gauss_count", "node {:?}: count {} of {} (recursive {})", a, g.count(), pts.len(), recursive);
        ensure!(g.dim() == data.dim && g.moment2.len() == data.dim, "gauss_dim", "dim {}", g.dim());
        for j in 0..data.dim {
            let (mut m1, mut m2, mut size) = (0.0f64, 0.0f64, 0.0f64);
            for i in &pts {
                let x = data.row(*i)[j] as f64;
                m1 += x;
                m2 += x * x;
                size += x.abs();
            }
            // adding up n floats in any order is off by at most n roundings
            let rel = 1e-5 + 6e-8 * pts.len() as f64;
            ensure!(
                (g.moment1[j] as f64 - m1).abs() <= rel * size + 1e-30 && (g.moment2[j] as f64 - m2).abs() <= rel * m2 + 1e-30,
                "gauss_moments", "node {:?} column {}: moments {} {} should be {} {} (recursive {})", a, j, g.moment1[j], g.moment2[j], m1, m2, recursive
            );
        }
    }
    Ok(())
}

fn coverage_is<D: PointCloud>(r: &CoverTreeReader<D>, cov: &BTreeMap<Addr, Vec<usize>>, max: usize) -> Res {
    for (a, c) in cov {
        let got = r.get_node_plugin_and::<CoverageIndexes, _, _>(*a, |p| p.point_indexes().to_vec());
        if c.len() < max {
            let mut want = c.clone();
            want.sort();
            let mut g = match got {
                None => fail!("coverage_missing", "node {:?} covers {} and has no list (limit {})", a, c.len(), max),
                Some(g) => g,
            };
            g.sort();
            ensure!(g == want, "coverage", "node {:?} lists {:?}, it covers {:?}", a, g, want);
        } else {
            ensure!(got.is_none(), "coverage_limit", "node {:?} covers {} and has a list though the limit is {}", a, c.len(), max);
        }
    }
    Ok(())
}

fn p11_plugins(src: &mut Src) -> Res {
    let data = gen_points(src, 100);
    p11_on(src, data)
}
fn p11_big(src: &mut Src) -> Res {
    let data = gen_big(src, 900);
    p11_on(src, data)
}
fn p11_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    p11_with(src, data, p)
}
fn p11_on(src: &mut Src, data: Data) -> Res {
    let p = gen_deep(src, data.n);
    p11_with(src, data, p)
}
fn p11_with(src: &mut Src, data: Data, p: Params) -> Res {
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let mut w = made::<L2>(src, &data, &p);
    let early = w.reader();
    let d = dump(&early);
    let root = early.root_address();
    let cov = covered(&d, root);
    for a in d.keys() {
        let none = early.get_node_plugin_and::<Dirichlet, _, _>(*a, |_| ()).is_none()
            && early.get_node_plugin_and::<Categorical, _, _>(*a, |_| ()).is_none()
            && early.get_node_plugin_and::<DiagGaussian, _, _>(*a, |_| ()).is_none()
            && early.get_node_plugin_and::<CoverageIndexes, _, _>(*a, |_| ()).is_none()
            && early.get_node_plugin_and::<ProbeNode, _, _>(*a, |_| ()).is_none();
        ensure!(none, "early", "node {:?} has a component of a plugin that was not added", a);
    }
    let steps = src.usize(1, 6);
    let (mut cat, mut dir, mut gauss, mut limit, mut probe) = (false, false, None, None, None);
    for step in 0..steps {
        match src.draw(5) {
            0 => {
                w.add_plugin::<GokoCategorical>(GokoCategorical {});
                cat = true;
                src.class("categorical");
            }
            1 => {
                w.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
                dir = true;
                src.class("dirichlet");
            }
            2 => {
                let rec = src.bool();
                w.add_plugin::<GokoDiagGaussian>(if rec { GokoDiagGaussian::recursive() } else { GokoDiagGaussian::singletons() });
                gauss = Some(rec);
                src.class(if rec { "gauss_recursive" } else { "gauss_singletons" });
            }
            3 if limit.is_none() => {
                // a second one with a lower limit keeps the longer lists
                let max = match src.draw(3) {
                    0 => usize::MAX,
                    1 => src.usize(0, data.n + 1),
                    _ => src.usize(1, 8),
                };
                w.add_plugin::<GokoCoverageIndexes>(if max == usize::MAX { GokoCoverageIndexes::new() } else { GokoCoverageIndexes::restricted(max) });
                limit = Some(max);
                src.class("coverage");
            }
            _ => {
                if probe.is_none() {
                    let q = Probe {
                        every: src.draw(5) as i64,
                        log: Default::default(),
                        calls: Default::default(),
                        prepared: Default::default(),
                        mark: step as u64 * 100 + src.draw(50),
                    };
                    w.add_plugin::<Probe>(q.clone());
                    probe = Some(q);
                    src.class("custom");
                }
            }
        }
        if src.chance(1, 4) {
            w.refresh();
        }
    }
    let late = w.reader();
    for r in [&early, &late].iter() {
        if cat {
            discrete_is(r, &d, &cov, true)?;
        }
        if dir {
            discrete_is(r, &d, &cov, false)?;
        }
        if let Some(rec) = gauss {
            gauss_is(r, &data, &d, &cov, rec)?;
        }
        if let Some(max) = limit {
            coverage_is(r, &cov, max)?;
        }
        if let Some(q) = &probe {
            probe_is(r, &d, q, root)?;
        }
        if let Err(e) = dump_same(&d, &dump(r)) {
            fail!("tree_changed", "adding plugins changed the tree: {}", e);
        }
    }
    if d.len() >= 4 {
        src.nontrivial();
    }
    Ok(())
}

/// Sparse data have the same gaussians.
fn p11_sparse(src: &mut Src) -> Res {
    let dim = src.usize(1, 8);
    let n = gen_n(src, 60);
    let data = gen_data_kind(src, n, dim, "lattice");
    let p = gen_deep(src, data.n);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let cloud = sparse(&data);
    let mut w = builder(&p).build(Arc::new(cloud)).unwrap();
    w.add_plugin::<GokoDiagGaussian>(GokoDiagGaussian::recursive());
    let r = w.reader();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    for (a, c) in &cov {
        let g = match r.get_node_plugin_and::<DiagGaussian, _, _>(*a, |p| p.clone()) {
            None => fail!("gauss_missing", "node {:?} has no gaussian", a),
            Some(g) => g,
        };
        ensure!(g.count() == c.len(), "gauss_count", "count {} of {}", g.count(), c.len());
        for j in 0..dim {
            let m1: f64 = c.iter().map(|i| data.row(*i)[j] as f64).sum();
            let m2: f64 = c.iter().map(|i| (data.row(*i)[j] as f64).powi(2)).sum();
            let g1 = g.moment1.get(j).cloned().unwrap_or(0.0) as f64;
            let g2 = g.moment2.get(j).cloned().unwrap_or(0.0) as f64;
            ensure!(close(g1, m1, 1e-5, 1e-3) && close(g2, m2, 1e-5, 1e-3), "gauss_moments", "node {:?} column {}: {} {} should be {} {}", a, j, g1, g2, m1, m2);
        }
    }
    if d.len() >= 3 {
        src.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- P12, P13

type Path = Vec<(f32, Addr)>;

/// Evidence of a list of paths.
fn evidence(paths: &[Path]) -> BTreeMap<Addr, Counts> {
    let mut out: BTreeMap<Addr, Counts> = BTreeMap::new();
    for p in paths {
        for w in p.windows(2) {
            *out.entry(w[0].1).or_default().entry(Some(w[1].1)).or_insert(0.0) += 1.0;
        }
        if let Some(l) = p.last() {
            *out.entry(l.1).or_default().entry(None).or_insert(0.0) += 1.0;
        }
    }
    out
}

fn gen_path(src: &mut Src, data: &Data, r: &CoverTreeReader<AnyCloud<L2>>, d: &Dump) -> Path {
    match src.draw(4) {
        0 | 1 => r.known_path(data.id(src.usize(0, data.n - 1))).unwrap(),
        2 => {
            let q = gen_query(src, data);
            r.path(&&q[..]).unwrap()
        }
        _ => {
            // a walk from the root that stops anywhere
            let mut a = r.root_address();
            let mut out = vec![(0.0, a)];
            loop {
                let kids = d[&a].all_children();
                if kids.is_empty() || src.chance(1, 4) {
                    return out;
                }
                a = *src.pick(&kids);
                out.push((0.0, a));
            }
        }
    }
}

fn tracker_is(tag: &str, t: &BayesCategoricalTracker<AnyCloud<L2>>, r: &CoverTreeReader<AnyCloud<L2>>, d: &Dump, cov: &BTreeMap<Addr, Vec<usize>>, live: &[Path]) -> Res {
    let ev = evidence(live);
    ensure!(t.sequence_len() == live.len(), format!("{}_len", tag), "the window holds {} elements, it should hold {}", t.sequence_len(), live.len());
    let empty = Counts::new();
    for (a, n) in d {
        let e = ev.get(a).unwrap_or(&empty);
        counts_are(&format!("{}_evidence", tag), &|| format!("evidence at {:?}", a), &t.evidence_prob_vector(*a), e)?;
        let mut post = Counts::new();
        for c in n.all_children() {
            post.insert(Some(c), cov[&c].len() as f64);
        }
        post.insert(None, (n.singletons.len() + n.is_leaf() as usize) as f64);
        for (k, c) in e {
            *post.entry(*k).or_insert(0.0) += c;
        }
        counts_are(&format!("{}_posterior", tag), &|| format!("posterior at {:?}", a), &t.prob_vector(*a), &post)?;
    }
    for (a, c) in t.running_evidence() {
        let want = ev.get(a).map(total).unwrap_or(0.0);
        ensure!(close(c.total(), want, 1e-9, 1e-9), format!("{}_running", tag), "evidence at {:?} weighs {}, the window {} ", a, c.total(), want);
    }
    for a in ev.keys() {
        ensure!(t.running_evidence().contains_key(a), format!("{}_forgot", tag), "the evidence at {:?} is missing", a);
    }
    let _ = r;
    Ok(())
}

fn p12_window(src: &mut Src) -> Res {
    let data = gen_points(src, 50);
    let window = match src.draw(4) {
        0 => 0,
        1 => 1,
        2 => src.usize(2, 5),
        _ => src.usize(1, 20),
    };
    let steps = src.usize(1, 30);
    p12_on(src, data, window, steps)
}
/// Windows of hundreds and histories of thousands.
fn p12_long(src: &mut Src) -> Res {
    let data = gen_points(src, 250);
    let window = *src.pick(&[0usize, 7, 50, 100, 128, 250, 500, 1000]) + src.usize(0, 3);
    let steps = src.usize(100, if src.tier_thorough { 8000 } else { 2500 });
    p12_on(src, data, if window < 4 { 0 } else { window }, steps)
}
/// Windows past 65536 elements.
fn p12_huge(src: &mut Src) -> Res {
    let data = gen_points(src, 60);
    let p = gen_deep(src, data.n);
    let window = match src.draw(4) {
        0 => 0,
        1 => src.usize(3000, 40000),
        _ => src.usize(65530, 67000),
    };
    let steps = if src.chance(1, 4) { src.usize(100, 60000) } else { src.usize(66000, 140000) };
    let mut w = made::<L2>(src, &data, &p);
    add_dirichlet(&mut w);
    let r = w.reader();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    src.describe(|| format!("{} {:?} window {} steps {}", data.show(), p, window, steps));
    let pool: Vec<Path> = (0..src.usize(1, 20)).map(|_| gen_path(src, &data, &r, &d)).collect();
    let order: Vec<usize> = {
        let mut v = Vals::new(src, steps);
        (0..steps).map(|_| v.draw(pool.len() as u64) as usize).collect()
    };
    let mut t = BayesCategoricalTracker::new(window, w.reader());
    let looks = [steps / 3, steps * 2 / 3, steps];
    for (s, i) in order.iter().enumerate() {
        t.add_path(pool[*i].clone());
        if looks.contains(&(s + 1)) {
            let from = if window == 0 { 0 } else { (s + 1).saturating_sub(window) };
            let live: Vec<Path> = order[from..s + 1].iter().map(|i| pool[*i].clone()).collect();
            tracker_is("step", &t, &r, &d, &cov, &live)?;
        }
    }
    src.class(if window == 0 { "unlimited" } else if steps > window { "evicting" } else { "filling" });
    if d.len() >= 3 && (window == 0 || steps > window) {
        src.nontrivial();
    }
    Ok(())
}
fn p12_on(src: &mut Src, data: Data, window: usize, steps: usize) -> Res {
    let p = gen_deep(src, data.n);
    let mut w = made::<L2>(src, &data, &p);
    add_dirichlet(&mut w);
    let r = w.reader();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    let often = (steps as u64 / 6).max(5);
    src.describe(|| format!("{} {:?} window {} steps {}", data.show(), p, window, steps));
    let mut t = BayesCategoricalTracker::new(window, w.reader());
    let mut live: VecDeque<Path> = VecDeque::new();
    let mut evicted = false;
    tracker_is("start", &t, &r, &d, &cov, &[])?;
    for s in 0..steps {
        let path = gen_path(src, &data, &r, &d);
        t.add_path(path.clone());
        live.push_back(path);
        if window != 0 && live.len() > window {
            live.pop_front();
            evicted = true;
        }
        if s + 1 == steps || src.chance(1, often) {
            let l: Vec<Path> = live.iter().cloned().collect();
            tracker_is("step", &t, &r, &d, &cov, &l)?;
        }
    }
    src.class(if window == 0 { "unlimited" } else if evicted { "evicting" } else { "filling" });
    if d.len() >= 3 && (evicted || (window == 0 && steps >= 3)) {
        src.nontrivial();
    }
    Ok(())
}

fn p12_append(src: &mut Src) -> Res {
    let data = gen_points(src, 40);
    p12_append_on(src, data, 8, 12)
}
/// Nodes with hundreds of children, most of which see something.
fn p12_fan(src: &mut Src) -> Res {
    let data = gen_fan(src, 500);
    let steps = src.usize(60, 900);
    if src.bool() {
        p12_append_on(src, data, 500, steps)
    } else {
        let window = if src.bool() { 0 } else { src.usize(20, 600) };
        p12_on(src, data, window, steps)
    }
}
/// Points that are nearly all as far apart as any two, some of them twice.
fn gen_fan(src: &mut Src, max_n: usize) -> Data {
    let (n, dim) = (src.usize(max_n / 5, max_n), src.usize(12, 24));
    let mut data = gen_data_kind(src, n, dim, "uniform");
    if src.bool() {
        let again = src.usize(n / 3, n);
        data.v.extend_from_within(..again * dim);
        data.n += again;
    }
    src.class("far_apart");
    data
}
fn p12_append_on(src: &mut Src, data: Data, max_window: usize, max_steps: usize) -> Res {
    let p = gen_deep(src, data.n);
    let mut w = made::<L2>(src, &data, &p);
    add_dirichlet(&mut w);
    let r = w.reader();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    // both unlimited or both with a window
    let unlimited = src.bool();
    let wa = if unlimited { 0 } else { src.usize(1, max_window) };
    let wb = if unlimited { 0 } else { src.usize(1, max_window) };
    let mut lists: Vec<Vec<Path>> = vec![];
    let mut trackers = vec![];
    for win in [wa, wb].iter() {
        let n = src.usize(0, max_steps);
        let mut t = BayesCategoricalTracker::new(*win, w.reader());
        let mut live: Vec<Path> = vec![];
        for _ in 0..n {
            let path = gen_path(src, &data, &r, &d);
            t.add_path(path.clone());
            live.push(path);
            if *win != 0 && live.len() > *win {
                live.remove(0);
            }
        }
        lists.push(live);
        trackers.push(t);
    }
    src.describe(|| format!("{} {:?} windows {} {} elements {} {}", data.show(), p, wa, wb, lists[0].len(), lists[1].len()));
    let b = trackers.pop().unwrap();
    let a = trackers.pop().unwrap();
    let mut joined = a.append(&b);
    tracker_is("other", &b, &r, &d, &cov, &lists[1])?;
    let mut live: Vec<Path> = lists.concat();
    if wa != 0 && live.len() > wa {
        live.drain(..live.len() - wa);
    }
    tracker_is("append", &joined, &r, &d, &cov, &live)?;
    for _ in 0..src.usize(0, 6) {
        let path = gen_path(src, &data, &r, &d);
        joined.add_path(path.clone());
        live.push(path);
        if wa != 0 && live.len() > wa {
            live.remove(0);
        }
    }
    tracker_is("after_append", &joined, &r, &d, &cov, &live)?;
    if !lists[0].is_empty() && !lists[1].is_empty() {
        src.nontrivial();
    }
    Ok(())
}

fn p13_stats(src: &mut Src) -> Res {
    let data = gen_points(src, 60);
    let window = if src.bool() { 0 } else { src.usize(1, 12) };
    let steps = src.usize(0, 40);
    p13_on(src, data, window, steps)
}
fn p13_long(src: &mut Src) -> Res {
    let data = gen_points(src, 250);
    let window = if src.bool() { 0 } else { src.usize(20, 600) };
    let steps = src.usize(100, if src.tier_thorough { 6000 } else { 1800 });
    p13_on(src, data, window, steps)
}
fn p13_fan(src: &mut Src) -> Res {
    let data = gen_fan(src, 600);
    let window = if src.bool() { 0 } else { src.usize(20, 1200) };
    let steps = src.usize(100, 2500);
    p13_on(src, data, window, steps)
}
/// Populous nodes and few observations: divergences far below one, down to the documented cut of 1e-10.
fn p13_crowded(src: &mut Src) -> Res {
    let n = src.usize(300, 2500);
    let far = src.usize(1, 3);
    let mut x: Vec<f32> = (0..n).map(|_| src.usize(0, 4000) as f32 / 4096.0).collect();
    for i in 0..far {
        x.push(50.0 * (i + 1) as f32);
    }
    src.shuffle(&mut x);
    let data = Data { dim: 1, n: n + far, v: x, kind: "crowded", ids: PLAIN };
    let window = if src.bool() { 0 } else { src.usize(1, 5) };
    let steps = src.usize(1, 6);
    p13_on(src, data, window, steps)
}
/// Tens of thousands of points: the divergence of the tree comes close to the rounding of its terms.
fn p13_huge(src: &mut Src) -> Res {
    let data = if src.bool() { gen_huge(src, 70000) } else { let n = src.usize(20000, 300000); Data { dim: 1, n, v: vec![src.usize(0, 9) as f32 / 4.0; n], kind: "identical", ids: PLAIN } };
    let window = if src.bool() { 0 } else { src.usize(1, 5) };
    let steps = src.usize(1, 6);
    let p = huge_params(src, data.n);
    p13_with(src, data, p, window, steps)
}
fn p13_on(src: &mut Src, data: Data, window: usize, steps: usize) -> Res {
    let p = gen_deep(src, data.n);
    p13_with(src, data, p, window, steps)
}
fn p13_with(src: &mut Src, data: Data, p: Params, window: usize, steps: usize) -> Res {
    let mut w = made::<L2>(src, &data, &p);
    add_dirichlet(&mut w);
    let r = w.reader();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    src.describe(|| format!("{} {:?} window {} steps {}", data.show(), p, window, steps));
    let mut t = BayesCategoricalTracker::new(window, w.reader());
    let mut live: Vec<Path> = vec![];
    let focus = if src.chance(1, 3) { Some(r.known_path(data.id(src.usize(0, data.n - 1))).unwrap()) } else { None };
    for _ in 0..steps {
        let path = match &focus {
            Some(f) => f.clone(),
            None => gen_path(src, &data, &r, &d),
        };
        t.add_path(path.clone());
        live.push(path);
        if window != 0 && live.len() > window {
            live.remove(0);
        }
    }
    let ev = evidence(&live);
    // the divergence of each node that the window touches
    let all = t.all_node_kl();
    let got: BTreeMap<Addr, f64> = all.iter().map(|(k, a)| (*a, *k)).collect();
    ensure!(got.len() == all.len(), "node_twice", "a node is listed twice");
    let keys: Vec<Addr> = ev.keys().cloned().collect();
    ensure!(got.keys().cloned().collect::<Vec<_>>() == keys, "node_set", "divergences for {:?}, the window touches {:?}", got.keys(), keys);
    for (a, e) in &ev {
        let n = &d[a];
        let own = (n.singletons.len() + n.is_leaf() as usize) as f64;
        let mut prior = vec![];
        let mut post = vec![];
        for c in n.all_children() {
            prior.push(cov[&c].len() as f64);
            post.push(cov[&c].len() as f64 + e.get(&Some(c)).cloned().unwrap_or(0.0));
        }
        let es = e.get(&None).cloned().unwrap_or(0.0);
        let g = got[a];
        ensure!(g.is_finite() && g >= 0.0, "node_sign", "the divergence of {:?} is {}", a, g);
        if own > 0.0 {
            prior.push(own);
            post.push(own + es);
        } else if es > 0.0 {
            // the prior gives this no mass
            continue;
        }
        let (kl, size) = dirichlet_kl(&prior, &post);
        ensure!((g - kl.max(0.0)).abs() <= 3e-12 * (1.0 + size), "node_kl", "the divergence of {:?} is {}, prior {:?} and posterior {:?} give {}", a, g, prior, post, kl);
    }
    // the whole tree
    let nodes = d.len();
    let pt = (data.n + nodes) as f64;
    let qt = pt + live.len() as f64;
    let mut kl = lgamma(qt) - lgamma(pt);
    let mut size = lgamma(qt).abs() + lgamma(pt).abs();
    for (a, e) in &ev {
        let es = e.get(&None).cloned().unwrap_or(0.0);
        if es > 0.0 {
            let prior = d[a].singletons.len() as f64 + 1.0;
            let x = lgamma(prior) - lgamma(prior + es) + es * (psi(prior + es) - psi(qt));
            kl += x;
            size += x.abs() + lgamma(prior + es).abs();
        }
    }
    let g = t.kl_div();
    ensure!(g.is_finite() && g >= 0.0, "tree_sign", "the divergence of the tree is {}", g);
    ensure!((g - kl.max(0.0)).abs() <= 3e-12 * (1.0 + size), "tree_kl", "the divergence of the tree is {}, the window gives {}", g, kl);
    // summary statistics of the nodes
    let s = t.kl_div_stats();
    let nz: Vec<f64> = got.values().cloned().filter(|k| *k > 1.0e-10).collect();
    ensure!(s.sequence_len == live.len(), "stats_len", "{} of {}", s.sequence_len, live.len());
    // (rounding decides for the values at the cut)
    let sure = got.values().filter(|k| **k > 1.2e-10).count();
    let maybe = got.values().filter(|k| **k > 0.8e-10).count();
    ensure!(s.nz_count as usize >= sure && s.nz_count as usize <= maybe, "stats_count", "{} of {}", s.nz_count, nz.len());
    let m1: f64 = nz.iter().sum();
    let m2: f64 = nz.iter().map(|x| x * x).sum();
    ensure!(close(s.moment1_nz, m1, 1e-9, 1e-12) && close(s.moment2_nz, m2, 1e-9, 1e-12), "stats_moments", "{:?}, the nodes give {} {}", s, m1, m2);
    if !nz.is_empty() {
        let max = nz.iter().cloned().fold(f64::MIN, f64::max);
        let min = nz.iter().cloned().fold(f64::MAX, f64::min);
        ensure!(close(s.max, max, 1e-9, 1e-10) && close(s.min, min, 1e-9, 4e-11), "stats_range", "{:?}, the nodes give {}..{}", s, min, max);
    }
    // how many nodes of each layer the window touches
    let f = t.fractal_dim_stats();
    ensure!(f.sequence_len == live.len(), "fractal_len", "{}", f.sequence_len);
    ensure!(f.layer_totals.len() == r.len() && f.weighted_layer_totals.len() == r.len(), "fractal_layers", "{} layers of {}", f.layer_totals.len(), r.len());
    for i in 0..r.len() {
        let si = p.min_res - 1 + i as i32;
        let pops: Vec<usize> = ev.keys().filter(|a| a.0 == si).map(|a| cov[a].len()).collect();
        ensure!(f.layer_totals[i] as usize == pops.len(), "fractal_count", "layer {}: {} nodes, the window touches {}", si, f.layer_totals[i], pops.len());
        let max = pops.iter().cloned().max().unwrap_or(1) as f64;
        let want: f64 = pops.iter().map(|c| *c as f64 / max).sum();
        ensure!(close(f.weighted_layer_totals[i] as f64, want, 1e-4, 1e-6), "fractal_weight", "layer {}: {} should be {}", si, f.weighted_layer_totals[i], want);
    }
    // order of the elements does not matter
    if window == 0 && steps > 1 {
        let mut again = live.clone();
        src.shuffle(&mut again);
        let mut t2 = BayesCategoricalTracker::new(0, w.reader());
        again.into_iter().for_each(|x| t2.add_path(x));
        ensure!(close(t2.kl_div(), t.kl_div(), 1e-7, 1e-7 * (1.0 + size) / 10.0), "order", "{} against {} in another order", t.kl_div(), t2.kl_div());
    }
    src.class(if window == 0 { "unlimited" } else if steps > window { "evicting" } else { "filling" });
    if nz.len() >= 2 {
        src.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- P14

/// A categorical with these counts, from paths through made up addresses; some counts fall back to zero.
fn categorical(src: &mut Src, r: &CoverTreeReader<AnyCloud<L2>>, kids: &[Addr], counts: &Counts) -> Categorical {
    const TOP: Addr = (1000, 1);
    let mut paths: Vec<Path> = vec![];
    for (k, c) in counts {
        for _ in 0..*c as usize {
            paths.push(match k {
                Some(a) => vec![(0.0, TOP), (0.0, *a)],
                None => vec![(0.0, TOP)],
            });
        }
    }
    src.shuffle(&mut paths);
    let n = paths.len();
    if n == 0 {
        return Categorical::new();
    }
    let old = src.usize(0, 3);
    let mut t = BayesCategoricalTracker::new(if old > 0 { n } else { 0 }, r.clone());
    for _ in 0..old {
        let k = *src.pick(kids);
        t.add_path(vec![(0.0, TOP), (0.0, k)]);
    }
    paths.into_iter().for_each(|p| t.add_path(p));
    t.running_evidence().get(&TOP).cloned().unwrap_or_else(Categorical::new)
}

thread_local! {
    static SMALL: std::cell::RefCell<Option<CoverTreeWriter<AnyCloud<L2>>>> = std::cell::RefCell::new(None);
}
fn small_reader() -> CoverTreeReader<AnyCloud<L2>> {
    SMALL.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut b = CoverTreeBuilder::new();
            b.set_rng_seed(1).set_verbosity(0);
            *s = Some(b.build(Arc::new(AnyCloud::Plain(DataRam::<L2>::new(vec![0.0, 1.0, 5.0], 1).unwrap()))).unwrap());
        }
        s.as_ref().unwrap().reader()
    })
}

fn gen_kids(src: &mut Src) -> Vec<Addr> {
    let n = src.usize(1, 7);
    let mut kids: Vec<Addr> = (0..n).map(|_| (-(src.draw(4) as i32), src.usize(0, 12))).collect();
    kids.sort();
    kids.dedup();
    src.shuffle(&mut kids);
    kids
}

fn gen_counts(src: &mut Src, kids: &[Addr], zero: bool) -> Counts {
    let mut c = Counts::new();
    let top = *src.pick(&[3u64, 12, 60]);
    for k in kids {
        let x = if zero && src.chance(1, 4) { 0 } else { 1 + src.draw(top) };
        c.insert(Some(*k), x as f64);
    }
    let x = if zero && src.chance(1, 3) { 0 } else { 1 + src.draw(top) };
    c.insert(None, x as f64);
    c
}

fn p14_categorical(src: &mut Src) -> Res {
    let r = small_reader();
    let kids = gen_kids(src);
    let ca = gen_counts(src, &kids, true);
    let cb = if src.chance(1, 5) { ca.clone() } else { gen_counts(src, &kids, true) };
    let a = categorical(src, &r, &kids, &ca);
    let b = categorical(src, &r, &kids, &cb);
    src.describe(|| format!("counts {:?} and {:?}", ca, cb));
    for (x, c) in [(&a, &ca), (&b, &cb)].iter() {
        let t = total(c);
        ensure!(close(x.total(), t, 1e-12, 0.0), "total", "total {} of {}", x.total(), t);
        counts_are("prob", &|| "categorical".into(), &x.prob_vector(), c)?;
        for k in kids.iter().map(|k| Some(*k)).chain(vec![None, Some((77, 77))]) {
            let n = c.get(&k).cloned().unwrap_or(0.0);
            let lp = x.ln_pdf(k.as_ref());
            ensure!(lp.is_some() == (t > 0.0), "ln_pdf_some", "{:?}", lp);
            if let Some(lp) = lp {
                ensure!(if n == 0.0 { lp == f64::NEG_INFINITY } else { close(lp, (n / t).ln(), 1e-9, 1e-9) }, "ln_pdf", "ln_pdf {} for {} of {}", lp, n, t);
            }
        }
        let own = x.kl_divergence(x);
        ensure!(own.is_some() == (t > 0.0) && own.unwrap_or(0.0).abs() < 1e-9, "kl_self", "divergence of itself is {:?}", own);
    }
    let (ta, tb) = (total(&ca), total(&cb));
    let inside = ta > 0.0 && tb > 0.0 && ca.iter().all(|(k, n)| *n == 0.0 || cb[k] > 0.0);
    let got = a.kl_divergence(&b);
    ensure!(got.is_some() == inside, "kl_support", "divergence {:?} of {:?} from {:?}", got, ca, cb);
    if let Some(kl) = got {
        let want: f64 = ca.iter().filter(|(_, n)| **n > 0.0).map(|(k, n)| n / ta * ((n / ta).ln() - (cb[k] / tb).ln())).sum();
        ensure!(close(kl, want, 1e-9, 1e-9), "kl", "divergence {} should be {} for {:?} and {:?}", kl, want, ca, cb);
        ensure!(kl > -1e-9, "kl_sign", "divergence {}", kl);
    }
    src.class(if inside { "inside_support" } else { "outside_support" });
    if kids.len() >= 2 && ta > 2.0 && tb > 2.0 {
        src.nontrivial();
    }
    Ok(())
}

fn dirichlet(src: &mut Src, r: &CoverTreeReader<AnyCloud<L2>>, kids: &[Addr], c: &Counts, weight: f64) -> Dirichlet {
    let mut d = Dirichlet::new();
    // by single observations or in one go
    if src.bool() {
        let e = categorical(src, r, kids, c);
        d.add_evidence(&e);
    } else {
        let mut obs: Vec<Option<Addr>> = vec![];
        for (k, n) in c {
            (0..*n as usize).for_each(|_| obs.push(*k));
        }
        src.shuffle(&mut obs);
        obs.into_iter().for_each(|k| d.add_observation(k));
    }
    if weight != 1.0 {
        d.weight(weight);
    }
    d
}

fn p14_dirichlet(src: &mut Src) -> Res {
    let r = small_reader();
    let kids = gen_kids(src);
    let ca = gen_counts(src, &kids, false);
    let cb = gen_counts(src, &kids, false);
    let (wa, wb) = (*src.pick(&[1.0f64, 0.5, 2.0, 0.125, 3.75, 0.01]), *src.pick(&[1.0f64, 0.25, 4.0, 0.02]));
    let a = dirichlet(src, &r, &kids, &ca, wa);
    let b = dirichlet(src, &r, &kids, &cb, wb);
    src.describe(|| format!("counts {:?} x{} and {:?} x{}", ca, wa, cb, wb));
    let fa: Counts = ca.iter().map(|(k, c)| (*k, c * wa)).collect();
    let fb: Counts = cb.iter().map(|(k, c)| (*k, c * wb)).collect();
    for (x, c) in [(&a, &fa), (&b, &fb)].iter() {
        let t = total(c);
        ensure!(close(x.total(), t, 1e-12, 0.0), "total", "total {} of {}", x.total(), t);
        counts_are("prob", &|| "dirichlet".into(), &x.prob_vector(), c)?;
        match x.ln_prob_vector() {
            None => fail!("ln_prob_none", "no log probabilities for {:?}", c),
            Some((v, s)) => {
                for (k, lp) in v.iter().map(|(k, lp)| (Some(*k), *lp)).chain(vec![(None, s)]) {
                    ensure!(close(lp, (c[&k] / t).ln(), 1e-9, 1e-9), "ln_prob", "{} for {} of {}", lp, c[&k], t);
                }
                ensure!(v.len() == kids.len(), "ln_prob_len", "{} children of {}", v.len(), kids.len());
            }
        }
        for (k, n) in c.iter() {
            let lp = x.ln_pdf(k.as_ref()).unwrap_or(f64::NAN);
            ensure!(close(lp, (n / t).ln(), 1e-9, 1e-9), "ln_pdf", "ln_pdf {} for {} of {}", lp, n, t);
        }
        ensure!(x.ln_pdf(Some(&(77, 77))).unwrap_or(0.0) == f64::NEG_INFINITY, "ln_pdf_unknown", "{:?}", x.ln_pdf(Some(&(77, 77))));
        let own = x.kl_divergence(x);
        ensure!(own.map(|k| k.abs() < 1e-9 * (1.0 + t)).unwrap_or(false), "kl_self", "divergence of itself is {:?}", own);
    }
    let va: Vec<f64> = fa.values().cloned().collect();
    let vb: Vec<f64> = fb.values().cloned().collect();
    let (want, size) = dirichlet_kl(&va, &vb);
    let got = a.kl_divergence(&b).unwrap_or(f64::NAN);
    ensure!((got - want.max(0.0)).abs() <= 3e-12 * (1.0 + size), "kl", "divergence {} should be {} for {:?} and {:?}", got, want, fa, fb);
    ensure!(got >= 0.0, "kl_sign", "divergence {}", got);
    // evidence: the divergence of the posterior, and the posterior itself
    let ce = gen_counts(src, &kids, true);
    let e = categorical(src, &r, &kids, &ce);
    let mut post = a.clone();
    post.add_evidence(&e);
    let fp: Counts = fa.iter().map(|(k, c)| (*k, c + ce[k])).collect();
    counts_are("posterior", &|| "posterior".into(), &post.prob_vector(), &fp)?;
    ensure!(close(post.total(), total(&fp), 1e-12, 0.0), "posterior_total", "{} of {}", post.total(), total(&fp));
    let vp: Vec<f64> = fp.values().cloned().collect();
    let (want, size) = dirichlet_kl(&va, &vp);
    let got = a.posterior_kl_divergence(&e).unwrap_or(f64::NAN);
    ensure!((got - want.max(0.0)).abs() <= 3e-12 * (1.0 + size), "posterior_kl", "{} should be {} for {:?} and evidence {:?}", got, want, fa, ce);
    let direct = a.kl_divergence(&post).unwrap_or(f64::NAN);
    ensure!((got - direct).abs() <= 3e-12 * (1.0 + size), "posterior_direct", "{} against the divergence from the posterior {}", got, direct);
    ensure!(a.posterior_kl_divergence(&Categorical::new()).map(|k| k.abs() < 3e-12 * (1.0 + size)).unwrap_or(false), "no_evidence", "no evidence gives {:?}", a.posterior_kl_divergence(&Categorical::new()));
    // evidence for a child that the prior does not know
    let mut ck = Counts::new();
    ck.insert(Some((77, 77)), 1.0 + src.draw(3) as f64);
    let alien = categorical(src, &r, &kids, &ck);
    ensure!(a.posterior_kl_divergence(&alien).is_none(), "alien", "evidence outside the support gives {:?}", a.posterior_kl_divergence(&alien));
    if kids.len() >= 2 && total(&ce) >= 2.0 {
        src.nontrivial();
    }
    Ok(())
}

/// Frequencies of samples, 7 standard deviations and a bit of room.
fn p14_sample(src: &mut Src) -> Res {
    let r = small_reader();
    let kids = gen_kids(src);
    let c = gen_counts(src, &kids, true);
    let t = total(&c);
    let w = *src.pick(&[1.0f64, 0.1, 0.01, 5.5]);
    let seed = src.draw(1 << 30);
    let cat = categorical(src, &r, &kids, &c);
    let dir = dirichlet(src, &r, &kids, &c, w);
    src.describe(|| format!("counts {:?} weight {}", c, w));
    let n = 1500usize;
    let mut rng = SmallRng::seed_from_u64(seed);
    let use_dir = src.bool();
    let mut seen: BTreeMap<Option<Addr>, usize> = BTreeMap::new();
    for _ in 0..n {
        let s = if use_dir { dir.sample(&mut rng) } else { cat.sample(&mut rng) };
        *seen.entry(s).or_insert(0) += 1;
    }
    if t == 0.0 {
        ensure!(seen.len() == 1 && seen.contains_key(&None), "sample_empty", "an empty distribution gives {:?}", seen);
        return Ok(());
    }
    for (k, s) in &seen {
        ensure!(c.get(k).cloned().unwrap_or(0.0) > 0.0, "sample_support", "{:?} was drawn {} times and has count 0", k, s);
    }
    for (k, x) in &c {
        let q = x / t;
        let got = *seen.get(k).unwrap_or(&0) as f64;
        let sd = (n as f64 * q * (1.0 - q)).sqrt();
        ensure!((got - n as f64 * q).abs() <= 7.0 * sd + 12.0, "sample_rate", "{:?} was drawn {} times of {}, its probability is {} (dirichlet {})", k, got, n, q, use_dir);
    }
    if kids.len() >= 2 {
        src.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- P15

struct Gauss {
    g: DiagGaussian,
    pts: Vec<Vec<f32>>,
}

/// Every column in a unit of its own, a power of two, so that sums stay exact.
fn gen_unit(src: &mut Src, dim: usize) -> Vec<f32> {
    if src.chance(1, 3) {
        src.class("units");
        (0..dim).map(|_| 2f32.powi(src.range(-14, 10) as i32)).collect()
    } else {
        vec![1.0; dim]
    }
}

fn gen_gauss(src: &mut Src, dim: usize, spread: bool, unit: &[f32]) -> Gauss {
    let mut g = DiagGaussian::new(dim);
    let mut pts: Vec<Vec<f32>> = vec![];
    let ops = if dim <= 3 && src.chance(1, 60) { src.usize(100, 1500) } else { src.small(0, 40) };
    let off: Vec<i64> = (0..dim).map(|_| src.range(-8, 8)).collect();
    for _ in 0..ops {
        match src.draw(8) {
            0 if !pts.is_empty() => {
                let x = pts.remove(src.usize(0, pts.len() - 1));
                g.remove_point(&&x[..]);
            }
            1 => {
                let mut o = DiagGaussian::new(dim);
                for _ in 0..src.usize(0, 5) {
                    let x: Vec<f32> = (0..dim).map(|j| (off[j] + src.range(-9, 9)) as f32 * unit[j]).collect();
                    o.add_point(&&x[..]);
                    pts.push(x);
                }
                g.merge(&o);
            }
            2 => {
                // the same point in sparse form
                let x: Vec<f32> = (0..dim).map(|j| (off[j] + src.range(-9, 9)) as f32 * unit[j]).collect();
                let idx: Vec<u32> = (0..dim as u32).filter(|j| x[*j as usize] != 0.0).collect();
                let val: Vec<f32> = idx.iter().map(|j| x[*j as usize]).collect();
                g.add_point(&SparseRef::<f32, u32>::new(dim, &val[..], &idx[..]));
                pts.push(x);
            }
            _ => {
                let x: Vec<f32> = (0..dim).map(|j| (off[j] + src.range(-9, 9)) as f32 * unit[j]).collect();
                g.add_point(&&x[..]);
                pts.push(x);
            }
        }
    }
    if spread {
        // no column without variance
        for s in [-4.0f32, 4.0].iter() {
            let x: Vec<f32> = (0..dim).map(|j| (off[j] as f32 + s) * unit[j]).collect();
            g.add_point(&&x[..]);
            pts.push(x);
        }
    }
    Gauss { g, pts }
}

fn moments(g: &Gauss, dim: usize) -> Vec<(f64, f64)> {
    let n = g.pts.len() as f64;
    (0..dim)
        .map(|j| {
            let m = g.pts.iter().map(|p| p[j] as f64).sum::<f64>() / n;
            let v = g.pts.iter().map(|p| (p[j] as f64 - m).powi(2)).sum::<f64>() / n;
            (m, v)
        })
        .collect()
}

/// Mostly few columns, at times more than any loop is unrolled by.
fn gauss_dim(src: &mut Src) -> usize {
    match src.draw(8) {
        0 => src.usize(7, 20),
        1 if src.chance(1, 12) => src.usize(250, 400),
        1 => src.usize(15, 70),
        _ => src.usize(1, 6),
    }
}

fn p15_history(src: &mut Src) -> Res {
    let dim = gauss_dim(src);
    let unit = gen_unit(src, dim);
    let x = gen_gauss(src, dim, false, &unit);
    src.describe(|| format!("dim {} points {:?}", dim, x.pts));
    ensure!(x.g.count() == x.pts.len(), "count", "count {} of {}", x.g.count(), x.pts.len());
    ensure!(x.g.dim() == dim, "dim", "{}", x.g.dim());
    let (mean, var) = (x.g.mean(), x.g.var());
    ensure!(mean.len() == dim && var.len() == dim, "len", "{} {}", mean.len(), var.len());
    if x.pts.is_empty() {
        ensure!(mean.iter().chain(var.iter()).all(|y| *y == 0.0), "empty", "{:?} {:?} of nothing", mean, var);
        let mut e = x.g.clone();
        let p = vec![1.0f32; dim];
        e.remove_point(&&p[..]);
        ensure!(e.count() == 0 && e.moment1.iter().all(|y| *y == 0.0), "remove_empty", "removing from nothing gives {:?}", e);
    } else {
        for (j, (m, v)) in moments(&x, dim).iter().enumerate() {
            let m1: f64 = x.pts.iter().map(|p| p[j] as f64).sum();
            let m2: f64 = x.pts.iter().map(|p| (p[j] as f64).powi(2)).sum();
            let u = unit[j] as f64;
            ensure!(close(x.g.moment1[j] as f64, m1, 1e-6, 1e-6 * u) && close(x.g.moment2[j] as f64, m2, 1e-6, 1e-6 * u * u), "moments", "{} {} should be {} {}", x.g.moment1[j], x.g.moment2[j], m1, m2);
            ensure!(close(mean[j] as f64, *m, 1e-5, 1e-5 * u), "mean", "mean {} should be {}", mean[j], m);
            ensure!((var[j] as f64 - v).abs() <= 1e-5 * (v + m * m) + 1e-5 * u * u, "var", "variance {} should be {}", var[j], v);
        }
    }
    if x.pts.len() >= 3 {
        src.nontrivial();
    }
    Ok(())
}

fn p15_laws(src: &mut Src) -> Res {
    let dim = gauss_dim(src);
    let unit = gen_unit(src, dim);
    let a = gen_gauss(src, dim, true, &unit);
    let b = gen_gauss(src, dim, true, &unit);
    src.describe(|| format!("dim {} points {:?} and {:?}", dim, a.pts, b.pts));
    let (ma, mb) = (moments(&a, dim), moments(&b, dim));
    let x: Vec<f32> = (0..dim).map(|j| src.range(-30, 30) as f32 / 2.0 * unit[j]).collect();
    let mut want = 0.0;
    let mut size = 1.0;
    for ((m, v), y) in ma.iter().zip(&x) {
        let t = (*y as f64 - m).powi(2) / v;
        want -= 0.5 * (t + v.ln() + (2.0 * std::f64::consts::PI).ln());
        size += t + v.ln().abs() + 2.0;
    }
    let got = a.g.ln_pdf(&&x[..]).unwrap_or(f64::NAN);
    ensure!((got - want).abs() <= 1e-3 * size, "ln_pdf", "ln_pdf {} should be {} at {:?}", got, want, x);
    let mut want = 0.0;
    let mut size = 1.0;
    for ((m, v), (u, w)) in ma.iter().zip(&mb) {
        let t = v / w + (u - m).powi(2) / w - 1.0 + w.ln() - v.ln();
        want += 0.5 * t;
        size += v / w + (u - m).powi(2) / w + w.ln().abs() + v.ln().abs() + 1.0;
    }
    let got = a.g.kl_divergence(&b.g).unwrap_or(f64::NAN);
    ensure!((got - want).abs() <= 1e-3 * size, "kl", "divergence {} should be {}", got, want);
    ensure!(got > -1e-3 * size, "kl_sign", "divergence {}", got);
    let own = a.g.kl_divergence(&a.g).unwrap_or(f64::NAN);
    ensure!(own.abs() <= 1e-4 * dim as f64, "kl_self", "divergence of itself is {}", own);
    src.nontrivial();
    Ok(())
}

fn p15_sample(src: &mut Src) -> Res {
    let dim = if src.chance(1, 8) { src.usize(5, 24) } else { src.usize(1, 4) };
    let unit = gen_unit(src, dim);
    let a = gen_gauss(src, dim, true, &unit);
    let seed = src.draw(1 << 30);
    src.describe(|| format!("dim {} points {:?}", dim, a.pts));
    let m = moments(&a, dim);
    let mut rng = SmallRng::seed_from_u64(seed);
    let n = 1000;
    let s: Vec<Vec<f32>> = (0..n).map(|_| a.g.sample(&mut rng)).collect();
    ensure!(s.iter().all(|x| x.len() == dim), "sample_dim", "a sample has the wrong dimension");
    for j in 0..dim {
        let mean = s.iter().map(|x| x[j] as f64).sum::<f64>() / n as f64;
        let var = s.iter().map(|x| (x[j] as f64 - m[j].0).powi(2)).sum::<f64>() / n as f64;
        ensure!((mean - m[j].0).abs() <= 7.0 * (m[j].1 / n as f64).sqrt(), "sample_mean", "mean of {} samples is {}, the distribution has {} (variance {})", n, mean, m[j].0, m[j].1);
        ensure!((var / m[j].1 - 1.0).abs() <= 8.0 * (2.0 / n as f64).sqrt(), "sample_var", "variance of {} samples is {}, the distribution has {}", n, var, m[j].1);
    }
    // columns are independent
    if dim >= 2 {
        let c = s.iter().map(|x| (x[0] as f64 - m[0].0) * (x[1] as f64 - m[1].0)).sum::<f64>() / n as f64 / (m[0].1 * m[1].1).sqrt();
        ensure!(c.abs() <= 8.0 / (n as f64).sqrt(), "sample_corr", "columns have correlation {}", c);
    }
    src.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- P27

fn same_f(got: f32, want: f64, tol: f64) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    if want.is_infinite() {
        return got as f64 == want;
    }
    close(got as f64, want, tol, tol)
}

fn p27_dims(src: &mut Src) -> Res {
    let data = gen_points(src, 120);
    p27_on(src, data)
}
fn p27_big(src: &mut Src) -> Res {
    let data = gen_big(src, 1500);
    p27_on(src, data)
}
fn p27_on(src: &mut Src, data: Data) -> Res {
    let p = gen_deep(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = made::<L2>(src, &data, &p);
    let r = w.reader();
    let d = dump(&r);
    let root = r.root_address();
    let cov = covered(&d, root);
    let lnb = (p.scale_base as f64).ln();
    let tol = 1e-4 / lnb.min(1.0);
    let mut shapes = 0;
    for (a, n) in &d {
        let kids = n.all_children();
        let want = ((n.singletons.len() + kids.len()) as f64).ln() / lnb;
        let got = r.node_fractal_dim(*a);
        ensure!(same_f(got, want, tol), "node", "node {:?} has dimension {}, {} children and {} singletons give {}", a, got, kids.len(), n.singletons.len(), want);
        let max = kids.iter().map(|c| cov[c].len()).max().unwrap_or(1) as f64;
        let sum = kids.iter().map(|c| cov[c].len() as f64).sum::<f64>() / max + n.singletons.len() as f64 / max;
        let got = r.node_weighted_fractal_dim(*a);
        ensure!(same_f(got, sum.ln() / lnb, tol), "node_weighted", "node {:?} has weighted dimension {}, its children give {}", a, got, sum.ln() / lnb);
        if kids.len() >= 2 {
            shapes += 1;
        }
    }
    let mut seen = 0;
    let mut last: Option<i32> = None;
    for (si, layer) in r.layers() {
        if let Some(l) = last {
            ensure!(si == l - 1, "layer_order", "layer {} after {}", si, l);
        } else {
            ensure!(si == root.0, "layer_top", "the first layer is {}, the root is at {}", si, root.0);
        }
        last = Some(si);
        let nodes: Vec<&NodeInfo> = d.values().filter(|n| n.addr.0 == si).collect();
        seen += nodes.len();
        ensure!(layer.scale_index() == si && r.layer(si).scale_index() == si, "layer_scale", "layer {} says {}", si, layer.scale_index());
        ensure!(layer.len() == nodes.len() && layer.is_empty() == nodes.is_empty(), "layer_len", "layer {} has {} nodes, it says {}", si, nodes.len(), layer.len());
        let mut centers = layer.node_center_indexes();
        centers.sort();
        let want: Vec<usize> = nodes.iter().map(|n| n.addr.1).collect();
        ensure!(centers == want, "layer_centers", "layer {} lists {:?} of {:?}", si, centers, want);
        let mut mapped: Vec<(usize, usize)> = layer.map_nodes(|pi, n| (*pi, n.coverage_count()));
        mapped.sort();
        let want: Vec<(usize, usize)> = nodes.iter().map(|n| (n.addr.1, cov[&n.addr].len())).collect();
        ensure!(mapped == want, "layer_map", "layer {} maps to {:?} of {:?}", si, mapped, want);
        ensure!(close(r.scale(si) as f64, (p.scale_base as f64).powi(si), 1e-4, 1.2e-38), "scale", "scale {} is {}", si, r.scale(si));
        if nodes.is_empty() {
            continue;
        }
        let kids: Vec<Addr> = nodes.iter().flat_map(|n| n.all_children()).collect();
        let singles: usize = nodes.iter().map(|n| n.singletons.len()).sum();
        let want = ((kids.len() + singles) as f64).ln() / lnb - (nodes.len() as f64).ln() / lnb;
        let got = r.layer_fractal_dim(si);
        ensure!(same_f(got, want, tol), "layer", "layer {} has dimension {}, its nodes give {}", si, got, want);
        let maxp = nodes.iter().map(|n| cov[&n.addr].len()).max().unwrap_or(1) as f64;
        let maxc = kids.iter().map(|c| cov[c].len()).max().unwrap_or(1) as f64;
        let sp: f64 = nodes.iter().map(|n| cov[&n.addr].len() as f64 / maxp).sum();
        let sc: f64 = kids.iter().map(|c| cov[c].len() as f64 / maxc).sum::<f64>() + singles as f64 / maxc;
        let got = r.layer_weighted_fractal_dim(si);
        ensure!(same_f(got, sc.ln() / lnb - sp.ln() / lnb, tol), "layer_weighted", "layer {} has weighted dimension {}, its nodes give {}", si, got, sc.ln() / lnb - sp.ln() / lnb);
    }
    ensure!(seen == d.len() && r.node_count() == d.len(), "node_count", "node_count {} of {}", r.node_count(), d.len());
    ensure!(r.len() == r.layers().count() && !r.is_empty(), "len", "{} layers of {}", r.len(), r.layers().count());
    ensure!(r.scale_range() == (p.min_res..root.0 + 1), "scale_range", "{:?} for {}..={}", r.scale_range(), p.min_res, root.0);
    for (a, n) in &d {
        let got = r.get_node_children_and(*a, |nested, kids| {
            let mut v = vec![nested];
            v.extend_from_slice(kids);
            v
        });
        ensure!(got.clone().unwrap_or_default() == n.all_children(), "children", "{:?} has children {:?}, it gives {:?}", a, n.all_children(), got);
    }
    if shapes >= 2 {
        src.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- P28

type Row = [(f64, f64); 5];

fn row(s: &KLDivergenceBaselineStats) -> Row {
    [s.max, s.min, s.nz_count, s.moment1_nz, s.moment2_nz]
}

fn p28_reading(src: &mut Src) -> Res {
    // lengths in increasing order, and arbitrary sums of samples
    let n = src.usize(1, 6);
    let seqs = src.usize(1, 5);
    let mut lens = vec![];
    let mut last = 0;
    for _ in 0..n {
        last += src.usize(1, 20);
        lens.push(last);
    }
    let mut stats = vec![];
    let mut rows: Vec<Row> = vec![];
    for _ in 0..n {
        let mut sums: Row = [(0.0, 0.0); 5];
        for s in sums.iter_mut() {
            for _ in 0..seqs {
                let x = src.draw(200) as f64 / 8.0;
                s.0 += x;
                s.1 += x * x;
            }
        }
        stats.push(KLDivergenceBaselineStats { max: sums[0], min: sums[1], nz_count: sums[2], moment1_nz: sums[3], moment2_nz: sums[4] });
        let mut r = sums;
        for x in r.iter_mut() {
            let m = x.0 / seqs as f64;
            *x = (m, x.1 / seqs as f64 - m * m);
        }
        rows.push(r);
    }
    let at = src.usize(0, last + 30);
    src.describe(|| format!("lengths {:?} sequences {} asked {}", lens, seqs, at));
    let b = KLDivergenceBaseline { num_sequences: seqs, sequence_len: lens.clone(), stats };
    let got = row(&b.stats(at));
    let mix = |a: &Row, c: &Row, w: f64| -> Row {
        let mut o = *a;
        for i in 0..5 {
            o[i].0 += w * (c[i].0 - a[i].0);
            o[i].1 += w * (c[i].1 - a[i].1);
        }
        o
    };
    let (want, class): (Row, _) = match lens.iter().position(|l| *l >= at) {
        Some(i) if lens[i] == at => (rows[i], "exact"),
        Some(0) => ([(0.0, 0.0); 5], "below"),
        Some(i) => (mix(&rows[i - 1], &rows[i], (at - lens[i - 1]) as f64 / (lens[i] - lens[i - 1]) as f64), "between"),
        None if n == 1 => (rows[0], "above_single"),
        None => (mix(&rows[n - 2], &rows[n - 1], (at - lens[n - 2]) as f64 / (lens[n - 1] - lens[n - 2]) as f64), "above"),
    };
    for i in 0..5 {
        ensure!(
            close(got[i].0, want[i].0, 1e-9, 1e-6) && close(got[i].1, want[i].1, 1e-9, 1e-6),
            "reading", "statistic {} at length {} is {:?}, lengths {:?} give {:?} ({})", i, at, got[i], lens, want[i], class
        );
    }
    src.class(class);
    if n >= 2 {
        src.nontrivial();
    }
    Ok(())
}

fn p28_training(src: &mut Src) -> Res {
    let data = gen_points(src, 40);
    let rate = src.usize(1, 9);
    let len = if src.bool() { 0 } else { src.usize(1, data.n + 5) };
    p28_train_on(src, data, rate, len)
}
/// Many points, mostly trained to the last one.
fn p28_many(src: &mut Src) -> Res {
    let mut data = gen_big(src, 1500);
    let m = if src.chance(1, 4) { src.usize(40, 300) } else { src.usize(2, 20) };
    let rate = (data.n / m).max(1);
    if src.chance(3, 4) {
        data.n = (data.n - 1) / rate * rate + 1;
        data.v.truncate(data.n * data.dim);
    }
    respread(src, &mut data);
    let len = if src.chance(2, 3) { 0 } else { src.usize(1, data.n + 5) };
    p28_train_on(src, data, rate, len)
}
fn p28_train_on(src: &mut Src, data: Data, rate: usize, len: usize) -> Res {
    let p = gen_deep(src, data.n);
    let mut w = made::<L2>(src, &data, &p);
    add_dirichlet(&mut w);
    let r = w.reader();
    let seqs = src.usize(1, 5);
    src.describe(|| format!("{} {:?} rate {} length {} sequences {}", data.show(), p, rate, len, seqs));
    let mut b = DirichletBaseline::default();
    b.set_sample_rate(rate);
    b.set_sequence_len(len);
    b.set_num_sequences(seqs);
    let base = match b.train(w.reader()) {
        Ok(b) => b,
        Err(e) => fail!("train", "training failed: {:?}", e),
    };
    let steps = if len == 0 { data.n } else { len.min(data.n) };
    let want: Vec<usize> = (0..steps).filter(|i| i % rate == 0).map(|i| i + 1).collect();
    ensure!(base.num_sequences == seqs, "sequences", "{} of {}", base.num_sequences, seqs);
    ensure!(base.sequence_len == want && base.stats.len() == want.len(), "lengths", "lengths {:?} of {:?}", base.sequence_len, want);
    // one element: between the extremes over the points
    let all: Vec<Row> = data
        .all_ids()
        .into_iter()
        .map(|i| {
            let mut t = BayesCategoricalTracker::new(0, w.reader());
            t.add_path(r.known_path(i).unwrap());
            let s = t.kl_div_stats();
            [(s.max, 0.0), (s.min, 0.0), (s.nz_count as f64, 0.0), (s.moment1_nz, 0.0), (s.moment2_nz, 0.0)]
        })
        .collect();
    let first = row(&base.stats(1));
    // a point without any divergence has extreme placeholders as its range
    let usual = all.iter().all(|x| x[2].0 > 0.0);
    for i in (if usual { 0 } else { 2 })..5 {
        let lo = all.iter().map(|x| x[i].0).fold(f64::MAX, f64::min);
        let hi = all.iter().map(|x| x[i].0).fold(f64::MIN, f64::max);
        let slack = 1e-9 * (1.0 + lo.abs() + hi.abs());
        ensure!(first[i].0 >= lo - slack && first[i].0 <= hi + slack, "first", "statistic {} after one element is {} on average, single points give {}..{}", i, first[i].0, lo, hi);
        ensure!(first[i].1 >= -1e-6 * (1.0 + hi * hi) && first[i].1 <= (hi - lo).powi(2) + 1e-6 * (1.0 + hi * hi), "first_var", "variance {} of statistic {} in {}..{}", first[i].1, i, lo, hi);
    }
    // all points once, in some order: always the same
    if want.last() == Some(&data.n) {
        let mut t = BayesCategoricalTracker::new(0, w.reader());
        data.all_ids().into_iter().for_each(|i| t.add_path(r.known_path(i).unwrap()));
        let s = t.kl_div_stats();
        let exact = [s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz];
        let last = row(&base.stats(data.n));
        for i in (if s.nz_count > 0 { 0 } else { 2 })..5 {
            ensure!(close(last[i].0, exact[i], 1e-6, 1e-6), "last", "statistic {} over all points is {}, it was {} in training", i, exact[i], last[i].0);
            ensure!(last[i].1.abs() <= 1e-6 * (1.0 + exact[i] * exact[i]), "last_var", "variance {} of statistic {} over all points", last[i].1, i);
        }
        src.class("all_points");
    }
    if data.n >= 5 && want.len() >= 2 {
        src.nontrivial();
    }
    Ok(())
}

/// One run over a few points: every row is the statistics of a selection of that many points,
/// which contains the selection of the row before it.
fn p28_selection(src: &mut Src) -> Res {
    let data = gen_points(src, 7);
    let p = gen_deep(src, data.n);
    let mut w = made::<L2>(src, &data, &p);
    add_dirichlet(&mut w);
    let r = w.reader();
    let rate = src.usize(1, 3);
    let len = if src.bool() { 0 } else { src.usize(1, data.n + 2) };
    src.describe(|| format!("{} {:?} rate {} length {}", data.show(), p, rate, len));
    let mut b = DirichletBaseline::default();
    b.set_sample_rate(rate);
    b.set_sequence_len(len);
    b.set_num_sequences(1);
    let base = match b.train(w.reader()) {
        Ok(b) => b,
        Err(e) => fail!("train", "training failed: {:?}", e),
    };
    let paths: Vec<_> = data.all_ids().into_iter().map(|i| r.known_path(i).unwrap()).collect();
    let mut before: Vec<u32> = vec![0];
    for l in &base.sequence_len {
        let got = row(&base.stats(*l));
        let mut now = vec![];
        for m in 0..(1u32 << data.n) {
            if m.count_ones() as usize != *l || !before.iter().any(|s| s & m == *s) {
                continue;
            }
            let mut t = BayesCategoricalTracker::new(0, w.reader());
            (0..data.n).filter(|i| m & (1 << i) != 0).for_each(|i| t.add_path(paths[i].clone()));
            let s = t.kl_div_stats();
            let exact = [s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz];
            let from = if s.nz_count > 0 { 0 } else { 2 };
            if (from..5).all(|i| close(got[i].0, exact[i], 1e-9, 1e-9) && got[i].1.abs() <= 1e-6 * (1.0 + exact[i] * exact[i])) {
                now.push(m);
            }
        }
        ensure!(!now.is_empty(), "selection", "the row of length {} is {:?}, which no {} different points give that contain those of the row before", l, got, l);
        before = now;
    }
    if data.n >= 4 && base.sequence_len.len() >= 2 {
        src.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P11",
            rule: "the tree has at least 4 nodes (3 for sparse data)",
            assumptions: vec!["coordinates are at most about 1e5, sums are compared with a relative slack of 1e-5"],
            subs: vec![sub("plugins", p11_plugins, 32000, 400000), sub("big", p11_big, 160, 4000), sub("huge", p11_huge, 16, 200), sub("sparse", p11_sparse, 8000, 80000)],
        },
        Prop {
            id: "P12",
            rule: "the window evicted an element, or an unlimited tracker saw 3 elements; both appended trackers hold elements",
            assumptions: vec!["appended trackers are both unlimited or both windowed", "paths start at the root and follow children"],
            subs: vec![sub("window", p12_window, 40000, 350000), sub("long", p12_long, 240, 4000), sub("huge", p12_huge, 16, 200), sub("append", p12_append, 24000, 200000), sub("fan", p12_fan, 160, 3000)],
        },
        Prop {
            id: "P13",
            rule: "at least two nodes have a divergence above the threshold",
            assumptions: vec!["nodes whose prior gives no mass to ending there are only checked for a finite, non-negative divergence"],
            subs: vec![sub("stats", p13_stats, 60000, 500000), sub("long", p13_long, 640, 6000), sub("crowded", p13_crowded, 240, 4000), sub("fan", p13_fan, 160, 3000), sub("huge", p13_huge, 48, 600)],
        },
        Prop {
            id: "P14",
            rule: "at least two children, and at least two observations",
            assumptions: vec!["sampling frequencies are judged at 7 standard deviations with fixed seeds"],
            subs: vec![
                sub("categorical", p14_categorical, 80000, 1000000),
                sub("dirichlet", p14_dirichlet, 80000, 1000000),
                sub("sample", p14_sample, 4000, 60000),
            ],
        },
        Prop {
            id: "P15",
            rule: "at least three points; two distributions with positive variance",
            assumptions: vec!["coordinates are small integers, so that the moments are exact in f32"],
            subs: vec![sub("history", p15_history, 60000, 1500000), sub("laws", p15_laws, 60000, 1500000), sub("sample", p15_sample, 4000, 60000)],
        },
        Prop {
            id: "P27",
            rule: "at least two nodes have two or more children",
            assumptions: vec!["layers without nodes have no dimension"],
            subs: vec![sub("dims", p27_dims, 60000, 500000), sub("big", p27_big, 640, 8000)],
        },
        Prop {
            id: "P28",
            rule: "at least two trained lengths",
            assumptions: vec!["the order of the training points is random and not controlled, only what holds for every order is checked"],
            subs: vec![sub("reading", p28_reading, 60000, 1500000), sub("training", p28_training, 18000, 150000), sub("many", p28_many, 160, 3000), sub("selection", p28_selection, 6000, 50000)],
        },
    ]
}

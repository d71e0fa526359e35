//! P29: the search building blocks - query heaps and node level searches.

use crate::common::*;
use crate::tree::{check_nearest, gen_k};
use goko::query_tools::{KnnQueryHeap, RoutingQueryHeap, SingletonQueryHeap};
use goko::*;
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::metrics::*;
use pointcloud::*;
use std::collections::{BTreeMap, BTreeSet};

fn tol(d: f32, b: f32, s: i32) -> f32 {
    1e-5 * (d + b.powi(s)) + 1e-30
}

/// What a heap must hold: the first distance given for every index, and the nodes that are still to be offered.
struct Model {
    k: usize,
    b: f32,
    known: BTreeMap<usize, f32>,
    /// (distance, least distance of anything covered), not yet offered for its children
    kids: BTreeMap<NodeAddress, (f32, f32)>,
    /// offered for its children, not yet for its singletons
    singles: BTreeMap<NodeAddress, (f32, f32)>,
    est: BTreeMap<NodeAddress, f32>,
    ordered: bool,
}

impl Model {
    fn new(k: usize, b: f32, ordered: bool) -> Model {
        Model { k, b, known: BTreeMap::new(), kids: BTreeMap::new(), singles: BTreeMap::new(), est: BTreeMap::new(), ordered }
    }
    fn sorted(&self) -> Vec<f32> {
        let mut v: Vec<f32> = self.known.values().cloned().collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.truncate(self.k);
        v
    }
    fn max_dist(&self) -> f32 {
        if self.k == 0 || self.known.len() < self.k {
            f32::MAX
        } else {
            self.sorted()[self.k - 1]
        }
    }
    fn push_node(&mut self, a: NodeAddress, d: f32) {
        self.known.entry(a.1).or_insert(d);
        self.kids.insert(a, (d, (d - self.b.powi(a.0)).max(0.0)));
    }
    fn raise(&mut self, a: NodeAddress, e: f32) {
        let x = self.est.entry(a).or_insert(0.0);
        *x = x.max(e);
    }
    /// Nodes the heap may not leave out: something closer than the kth distance could be there.
    fn required<'a>(&'a self, m: &'a BTreeMap<NodeAddress, (f32, f32)>) -> Vec<(NodeAddress, f32)> {
        let far = self.max_dist();
        m.iter()
            .filter(|(a, (d, min))| min.max(self.est.get(a).cloned().unwrap_or(0.0)) + tol(*d, self.b, a.0) < far)
            .map(|(a, (_, min))| (*a, *min))
            .collect()
    }
    fn offered(&mut self, tag: &str, children: bool, got: Option<(f32, NodeAddress)>) -> Res {
        let pool = if children { &self.kids } else { &self.singles };
        let req = self.required(pool);
        match got {
            None => ensure!(req.is_empty(), format!("{}_withheld", tag), "nothing was offered, but {:?} could hold closer points than {}", req, self.max_dist()),
            Some((d, a)) => {
                let (pd, pmin) = match pool.get(&a) {
                    Some(x) => *x,
                    None => fail!(format!("{}_stranger", tag), "{:?} at {} was offered but it is not waiting: {:?}", a, d, pool),
                };
                ensure!(same_bits(pd, d), format!("{}_distance", tag), "{:?} was pushed at {} and offered at {}", a, pd, d);
                if self.ordered {
                    for (o, omin) in &req {
                        ensure!(pmin <= *omin + tol(pd, self.b, a.0) + tol(pool[o].0, self.b, o.0), format!("{}_order", tag), "{:?} (from {}) was offered before {:?} (from {})", a, pmin, o, omin);
                    }
                }
                if children {
                    let x = self.kids.remove(&a).unwrap();
                    self.singles.insert(a, x);
                } else {
                    self.singles.remove(&a);
                }
            }
        }
        Ok(())
    }
    fn check(&self, h: &KnnQueryHeap) -> Res {
        let want = self.k.min(self.known.len());
        ensure!(h.len() == want, "heap_len", "{} points held of {} known, k={}", h.len(), self.known.len(), self.k);
        ensure!(h.is_empty() == (want == 0), "heap_empty", "is_empty is {} with {} points", h.is_empty(), want);
        ensure!(same_bits(h.max_dist(), self.max_dist()), "heap_max_dist", "max_dist {} should be {} (k={}, {:?})", h.max_dist(), self.max_dist(), self.k, self.sorted());
        let most = self.kids.len() + self.singles.len();
        ensure!(h.node_len() <= most, "heap_node_len", "{} nodes wait, {} were given", h.node_len(), most);
        Ok(())
    }
    fn unpacked(&self, got: Vec<(f32, usize)>) -> Res {
        let want = self.sorted();
        let ds: Vec<f32> = got.iter().map(|x| x.0).collect();
        ensure!(ds == want, "unpack_distances", "unpacked {:?}, the {} smallest are {:?}", got, self.k, want);
        let mut seen = BTreeSet::new();
        for (d, i) in &got {
            ensure!(seen.insert(*i), "unpack_repeat", "index {} twice in {:?}", i, got);
            ensure!(self.known.get(i).map(|x| same_bits(*x, *d)).unwrap_or(false), "unpack_distance", "index {} unpacked at {}, given {:?}", i, d, self.known.get(i));
        }
        Ok(())
    }
}

fn gen_dist(src: &mut Src) -> f32 {
    match src.draw(6) {
        0 => src.draw(6) as f32,
        1 => src.draw(40) as f32 / 8.0,
        2 => 0.0,
        3 => (src.unit() * 100.0) as f32,
        4 => *src.pick(&[1e-20f32, 1e-6, 0.5, 1.0, 1e6, 1e15, 1e30]),
        _ => (src.unit() * 4.0) as f32,
    }
}

fn heap_case(src: &mut Src, ordered: bool) -> Res {
    let b = *src.pick(&[2.0f32, 1.5, 1.2, 3.0, 10.0]);
    let ops = if src.chance(1, 12) { src.usize(40, 150) } else { src.small(1, 30) };
    let k = match src.draw(8) {
        0 => 0,
        1 => 1,
        2 => *src.pick(&[100usize, 1000, usize::MAX / 2, usize::MAX]),
        _ => src.usize(1, 12),
    };
    let mut h = KnnQueryHeap::new(k, b);
    let mut m = Model::new(k, b, ordered);
    let indexes = *src.pick(&[4u64, 12, 60]);
    let spread = *src.pick(&[2i64, 6, 12]);
    let mut ever: BTreeSet<NodeAddress> = BTreeSet::new();
    let (mut dropped, mut offers) = (false, 0);
    src.describe(|| format!("k={} scale_base={}", k, b));
    m.check(&h)?;
    for _ in 0..ops {
        match src.draw(8) {
            0 | 1 => {
                let n = if src.chance(1, 10) { src.usize(8, 40) } else { src.usize(0, 6) };
                let parent = if ordered || ever.is_empty() || src.bool() { None } else { Some(*src.pick(&ever.iter().cloned().collect::<Vec<_>>())) };
                let mut nodes = vec![];
                for _ in 0..n {
                    let a = (src.range(-spread, spread) as i32, src.draw(indexes) as usize);
                    let d = match m.known.get(&a.1) {
                        // a point has one distance
                        Some(d) => *d,
                        None => gen_dist(src),
                    };
                    if ever.insert(a) {
                        nodes.push((a, nodes.iter().find(|((_, i), _): &&(NodeAddress, f32)| *i == a.1).map(|x| x.1).unwrap_or(d)));
                    }
                }
                src.describe(|| format!("push_nodes({:?}, parent={:?})", nodes, parent));
                let (aa, dd): (Vec<NodeAddress>, Vec<f32>) = nodes.iter().cloned().unzip();
                let mut far = 0.0f32;
                for (a, d) in &nodes {
                    m.push_node(*a, *d);
                    far = far.max((d - b.powi(a.0)).max(0.0));
                }
                if let Some(p) = parent {
                    m.raise(p, far);
                }
                h.push_nodes(&aa, &dd, parent);
            }
            2 | 3 => {
                let n = if src.chance(1, 10) { src.usize(8, 40) } else { src.usize(0, 6) };
                let mut pts: Vec<(usize, f32)> = vec![];
                for _ in 0..n {
                    let i = src.draw(indexes) as usize;
                    let d = match m.known.get(&i) {
                        Some(d) => *d,
                        None => gen_dist(src),
                    };
                    m.known.insert(i, d);
                    pts.push((i, d));
                }
                src.describe(|| format!("push_outliers({:?})", pts));
                let (ii, dd): (Vec<usize>, Vec<f32>) = pts.iter().cloned().unzip();
                h.push_outliers(&ii, &dd);
            }
            4 | 5 => {
                let got = h.closest_unvisited_child_covering_address();
                src.describe(|| format!("child -> {:?}", got));
                offers += got.is_some() as usize;
                m.offered("child", true, got)?;
            }
            6 => {
                let got = h.closest_unvisited_singleton_covering_address();
                src.describe(|| format!("singleton -> {:?}", got));
                offers += got.is_some() as usize;
                m.offered("singleton", false, got)?;
            }
            _ => {
                if !ordered && !ever.is_empty() {
                    let a = *src.pick(&ever.iter().cloned().collect::<Vec<_>>());
                    let e = gen_dist(src);
                    src.describe(|| format!("increase_estimated_distance({:?}, {})", a, e));
                    m.raise(a, e);
                    h.increase_estimated_distance(a, e);
                }
            }
        }
        if k > 0 && m.known.len() > k {
            dropped = true;
        }
        m.check(&h)?;
    }
    // in the end every node that may matter is offered, for its children and then for its singletons
    let mut left = m.kids.len() + 1;
    loop {
        let got = h.closest_unvisited_child_covering_address();
        m.offered("child", true, got)?;
        if got.is_none() {
            break;
        }
        ensure!(left > 0, "child_endless", "nodes are offered without end");
        left -= 1;
    }
    let mut left = m.singles.len() + 1;
    loop {
        let got = h.closest_unvisited_singleton_covering_address();
        m.offered("singleton", false, got)?;
        if got.is_none() {
            break;
        }
        ensure!(left > 0, "singleton_endless", "nodes are offered without end");
        left -= 1;
    }
    m.check(&h)?;
    if dropped && offers > 0 {
        src.nontrivial();
    }
    m.unpacked(h.unpack())
}

fn p29_heap(src: &mut Src) -> Res {
    heap_case(src, true)
}
fn p29_estimates(src: &mut Src) -> Res {
    heap_case(src, false)
}

/// Thousands of nodes and points at once: all that could matter is offered, the nearest first, and the k nearest remain.
fn p29_crowd(src: &mut Src) -> Res {
    let n = match src.draw(3) {
        0 => src.usize(300, 5000),
        1 => src.usize(4000, 20000),
        _ => src.usize(65000, 70000),
    };
    let b = *src.pick(&[2.0f32, 1.5, 3.0]);
    let k = match src.draw(5) {
        0 => 1,
        1 => src.usize(2, 300),
        2 => src.usize(300, n),
        3 => n + src.usize(0, 9),
        _ => usize::MAX,
    };
    let points = src.usize(0, 3000);
    let chunk = *src.pick(&[1usize, 100, 5000, 100000]);
    let shift = *src.pick(&[0usize, 1 << 32, 1 << 40]);
    let far = src.chance(1, 2);
    src.describe(|| format!("{} nodes and {} points in chunks of {}, k={} scale_base={} shift {} far {}", n, points, chunk, k, b, shift, far));
    src.class(if n > 65536 { "over_65536" } else if n > 4096 { "over_4096" } else { "under_4096" });
    let all: Vec<(NodeAddress, f32)> = {
        let mut v = Vals::new(src, 2 * (n + points));
        (0..n + points).map(|i| ((v.range(-6, 4) as i32, shift + i), v.draw(1 << 20) as f32 / 4096.0 + if far { 40.0 } else { 0.0 })).collect()
    };
    let mut h = KnnQueryHeap::new(k, b);
    for c in all[..n].chunks(chunk) {
        let (a, d): (Vec<NodeAddress>, Vec<f32>) = c.iter().cloned().unzip();
        h.push_nodes(&a, &d, None);
    }
    for c in all[n..].chunks(chunk) {
        let (a, d): (Vec<usize>, Vec<f32>) = c.iter().map(|((_, i), d)| (*i, *d)).unzip();
        h.push_outliers(&a, &d);
    }
    let mut want: Vec<f32> = all.iter().map(|x| x.1).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    want.truncate(k);
    ensure!(h.len() == want.len(), "crowd_len", "{} points held of {}, k={}", h.len(), all.len(), k);
    let most = if want.len() < k { f32::MAX } else { want[k - 1] };
    ensure!(same_bits(h.max_dist(), most), "crowd_max_dist", "max_dist {} should be {}", h.max_dist(), most);
    let least = |a: &NodeAddress, d: f32| (d - b.powi(a.0)).max(0.0);
    for (tag, children) in &[("child", true), ("singleton", false)] {
        let mut seen = vec![false; n];
        let mut last = 0.0f32;
        while let Some((d, a)) = if *children { h.closest_unvisited_child_covering_address() } else { h.closest_unvisited_singleton_covering_address() } {
            let i = a.1.wrapping_sub(shift);
            ensure!(i < n && all[i].0 == a && same_bits(all[i].1, d), format!("crowd_{}_stranger", tag), "{:?} at {} was offered", a, d);
            ensure!(!seen[i], format!("crowd_{}_twice", tag), "{:?} was offered twice", a);
            seen[i] = true;
            let m = least(&a, d);
            ensure!(m + tol(d, b, a.0) >= last, format!("crowd_{}_order", tag), "{:?} (from {}) was offered after one from {}", a, m, last);
            last = last.max(m);
        }
        for (i, (a, d)) in all[..n].iter().enumerate() {
            ensure!(seen[i] || least(a, *d) + tol(*d, b, a.0) >= most, format!("crowd_{}_withheld", tag), "{:?} at {} was never offered, the kth distance is {}", a, d, most);
        }
    }
    let got = h.unpack();
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| same_bits(g.0, *w)), "crowd_unpack", "the {} smallest distances are not those unpacked", want.len());
    let mut seen = BTreeSet::new();
    for (d, i) in &got {
        let j = i.wrapping_sub(shift);
        ensure!(seen.insert(*i) && j < all.len() && same_bits(all[j].1, *d), "crowd_unpack_index", "index {} unpacked at {}", i, d);
    }
    if k < all.len() {
        src.nontrivial();
    }
    Ok(())
}

/// A heap that writes down what it is given.
#[derive(Default)]
struct Recorder {
    nodes: Vec<(NodeAddress, f32)>,
    points: Vec<(usize, f32)>,
    uneven: bool,
}
impl RoutingQueryHeap for Recorder {
    fn push_nodes(&mut self, indexes: &[NodeAddress], dists: &[f32], _parent: Option<NodeAddress>) {
        self.uneven |= indexes.len() != dists.len();
        self.nodes.extend(indexes.iter().cloned().zip(dists.iter().cloned()));
    }
}
impl SingletonQueryHeap for Recorder {
    fn push_outliers(&mut self, indexes: &[usize], dists: &[f32]) {
        self.uneven |= indexes.len() != dists.len();
        self.points.extend(indexes.iter().cloned().zip(dists.iter().cloned()));
    }
}
/// The distance of every index.
struct Dists(BTreeMap<usize, f64>);
impl std::ops::Index<usize> for Dists {
    type Output = f64;
    fn index(&self, i: usize) -> &f64 {
        &self.0[&i]
    }
}
impl Recorder {
    fn is(&self, tag: &str, ni: &NodeInfo, nodes: bool, singles: bool, center: bool, dists: &Dists) -> Res {
        ensure!(!self.uneven, format!("{}_uneven", tag), "{:?}: as many distances as entries are needed", ni.addr);
        let want: BTreeSet<NodeAddress> = if nodes { ni.all_children().into_iter().collect() } else { BTreeSet::new() };
        let got: BTreeSet<NodeAddress> = self.nodes.iter().map(|x| x.0).collect();
        ensure!(got == want, format!("{}_nodes", tag), "{:?} pushed the nodes {:?} of {:?}", ni.addr, got, want);
        let mut want: BTreeSet<usize> = if singles { ni.singletons.iter().cloned().collect() } else { BTreeSet::new() };
        if center {
            want.insert(ni.addr.1);
        }
        let got: BTreeSet<usize> = self.points.iter().map(|x| x.0).collect();
        ensure!(got == want, format!("{}_points", tag), "{:?} pushed the points {:?} of {:?}", ni.addr, got, want);
        for (i, d) in self.nodes.iter().map(|((_, i), d)| (i, d)).chain(self.points.iter().map(|(i, d)| (i, d))) {
            ensure!(near(*d as f64, dists[*i], 1e-4) || (*d as f64 - dists[*i]).abs() <= 1e-18, format!("{}_distance", tag), "{:?} gave {} for index {} at {}", ni.addr, d, i, dists[*i]);
        }
        Ok(())
    }
}

fn node_case<M: Metric<[f32]>>(src: &mut Src, norm: Norm) -> Res {
    let data = gen_points(src, 200);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = made::<M>(src, &data, &p);
    let r = w.reader();
    let cloud = r.point_cloud().clone();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    let addrs: Vec<Addr> = d.keys().cloned().collect();
    for _ in 0..src.usize(1, 5) {
        let q = gen_query(src, &data);
        let a = *src.pick(&addrs);
        let ni = &d[&a];
        let pass = src.bool();
        src.describe(|| format!("node {:?} q={:?} distance passed: {}", a, q, pass));
        let dists = Dists(data.all_ids().into_iter().map(|i| (i, rdist(norm, data.row(i), &q))).collect());
        let q = &q[..];
        let dc = cloud.distances_to_point(&q, &[a.1]).unwrap()[0];
        let given = if pass { Some(dc) } else { None };
        let node = |f: &mut dyn FnMut(&goko::node::CoverNode<AnyCloud<M>>)| r.get_node_and(a, |n| f(n)).is_some();

        let (mut s, mut c, mut b) = (Recorder::default(), Recorder::default(), Recorder::default());
        let mut errs = 0;
        ensure!(node(&mut |n| {
            errs += n.singleton_knn(&q, &cloud, &mut s).is_err() as usize;
            errs += n.child_knn(given, &q, &cloud, &mut c).is_err() as usize;
            errs += n.knn(given, &q, &cloud, &mut b).is_err() as usize;
        }), "node_missing", "{:?} is not there", a);
        ensure!(errs == 0, "node_error", "{} of the searches of {:?} failed", errs, a);
        s.is("singleton_knn", ni, false, true, false, &dists)?;
        c.is("child_knn", ni, true, false, false, &dists)?;
        b.is("knn", ni, true, true, ni.is_leaf(), &dists)?;

        // a k heap filled by one node holds the k nearest of what the node holds
        let mut cands: BTreeMap<usize, f64> = ni.singletons.iter().map(|i| (*i, dists[*i])).collect();
        cands.insert(a.1, dists[a.1]);
        for (_, i) in ni.all_children() {
            cands.insert(i, dists[i]);
        }
        let k = gen_k(src, cands.len());
        let mut h = KnnQueryHeap::new(k, p.scale_base);
        node(&mut |n| n.knn(given, &q, &cloud, &mut h).unwrap());
        check_nearest("node_knn", &h.unpack(), &cands, k)?;

        // which child a point belongs to
        let all = ni.all_children();
        let sc = |x: &Addr| scale(&p, x.0);
        let slack = |x: &Addr| 1e-5 * (sc(x) + dists[x.1]) + 1e-30;
        let mut near_got = None;
        let mut first_got = None;
        node(&mut |n| {
            near_got = Some(n.nearest_covering_child(p.scale_base, dc, &q, &cloud));
            first_got = Some(n.first_covering_child(p.scale_base, dc, &q, &cloud));
        });
        let (near_got, first_got) = match (near_got, first_got) {
            (Some(Ok(x)), Some(Ok(y))) => (x, y),
            x => fail!("covering_error", "{:?} answered {:?}", a, x),
        };
        for (tag, got) in &[("nearest", near_got), ("first", first_got)] {
            if let Some((gd, ga)) = got {
                ensure!(all.contains(ga), format!("{}_stranger", tag), "{:?} is no child of {:?}", ga, a);
                ensure!(near(*gd as f64, dists[ga.1], 1e-4) || (*gd as f64 - dists[ga.1]).abs() <= 1e-18, format!("{}_distance", tag), "{:?} is at {}, reported {}", ga, dists[ga.1], gd);
                ensure!(dists[ga.1] < sc(ga) + slack(ga), format!("{}_uncovered", tag), "{:?} at {} does not cover the query", ga, dists[ga.1]);
            }
        }
        if !all.is_empty() {
            let least = all.iter().map(|x| dists[x.1]).fold(f64::INFINITY, f64::min);
            let t = 1e-5 * least + 1e-30;
            let closest: Vec<&Addr> = all.iter().filter(|x| dists[x.1] <= least + t).collect();
            match near_got {
                Some((_, ga)) => ensure!(dists[ga.1] <= least + t, "nearest_further", "{:?} at {} is not the nearest child of {:?}: {}", ga, dists[ga.1], a, least),
                // ties may be broken either way
                None => ensure!(!closest.iter().all(|x| dists[x.1] + slack(x) < sc(x)), "nearest_none", "the nearest child of {:?} is one of {:?}, each covers the query", a, closest),
            }
            let clear: Option<usize> = all.iter().position(|x| dists[x.1] + slack(x) < sc(x));
            match (first_got, clear) {
                (Some((_, ga)), Some(c)) => {
                    let at = all.iter().position(|x| *x == ga).unwrap();
                    ensure!(at <= c, "first_later", "{:?} is child {} of {:?}, but child {} covers the query", ga, at, a, c);
                }
                (None, Some(c)) => fail!("first_none", "child {} ({:?}) of {:?} covers the query", c, all[c], a),
                _ => {}
            }
            src.class(if near_got.is_some() { "covered" } else { "uncovered" });
        } else {
            ensure!(near_got.is_none() && first_got.is_none(), "leaf_child", "leaf {:?} has a child: {:?} {:?}", a, near_got, first_got);
        }

        // searching down from any node is exact on what that node covers
        let under: BTreeMap<usize, f64> = cov[&a].iter().map(|i| (*i, dists[*i])).collect();
        let k = gen_k(src, under.len());
        src.describe(|| format!("search from {:?} k={}", a, k));
        let mut h = KnnQueryHeap::new(k, p.scale_base);
        h.push_nodes(&[a], &[dc], None);
        let mut steps = 0;
        while let Some((dist, x)) = h.closest_unvisited_child_covering_address() {
            let mut ok = false;
            let there = r.get_node_and(x, |n| ok = n.knn(Some(dist), &q, &cloud, &mut h).is_ok());
            ensure!(there.is_some() && ok, "search_error", "{:?} was offered and could not be searched", x);
            steps += 1;
            ensure!(steps <= d.len() + 1, "search_endless", "{} nodes searched of {}", steps, d.len());
        }
        check_nearest("search", &h.unpack(), &under, k)?;
        if under.len() >= 4 && k >= 1 && k < under.len() && !ni.is_leaf() {
            src.nontrivial();
        }
    }
    Ok(())
}

fn p29_node_l2(src: &mut Src) -> Res {
    node_case::<L2>(src, Norm::L2)
}
fn p29_node_l1(src: &mut Src) -> Res {
    node_case::<L1>(src, Norm::L1)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P29",
        rule: "heap histories: more points known than k and a node offered; node searches: a routing node covering at least 4 points and 1 <= k < that number",
        assumptions: vec![
            "a point has one distance: every push of the same index carries the same distance, and an address is pushed once",
            "order and omission of offered nodes are judged with a relative slack of 1e-5; nodes that cannot hold a closer point may be offered or left out",
            "an order of offers is only required while no distance estimate was raised",
        ],
        subs: vec![
            sub("heap", p29_heap, 120000, 6000000),
            sub("estimates", p29_estimates, 60000, 3000000),
            sub("crowd", p29_crowd, 120, 4000),
            sub("node_l2", p29_node_l2, 16000, 600000),
            sub("node_l1", p29_node_l1, 10000, 400000),
        ],
    }]
}

//! Generators and the reference view of a tree that the properties share.

use goko::plugins::discrete::prelude::*;
use goko::*;
use pbt::{Rng, Src};
use pointcloud::data_sources::*;
use pointcloud::glued_data_cloud::HashGluedCloud;
use pointcloud::pc_errors::*;
use pointcloud::*;
use std::collections::BTreeMap;
use std::fs;
use std::ops::Deref;
use std::sync::Arc;

pub type Addr = (i32, usize);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Norm {
    L1,
    L2,
}

/// A generated data set, row major.
#[derive(Clone, Debug)]
pub struct Data {
    pub dim: usize,
    pub n: usize,
    pub v: Vec<f32>,
    pub kind: &'static str,
    pub ids: Ids,
}

/// Which indexes the points go by: the plain rows, or a glued cloud of some parts that was given other indexes.
#[derive(Clone, Copy, Debug)]
pub struct Ids {
    pub parts: usize,
    pub stride: usize,
    pub shift: usize,
    /// the row that gets the first index
    pub turn: usize,
}

pub const PLAIN: Ids = Ids { parts: 0, stride: 1, shift: 0, turn: 0 };

impl Data {
    /// the point that goes by the index
    pub fn row(&self, i: usize) -> &[f32] {
        self.nth(self.place(i))
    }
    /// the point in the given place of the data
    pub fn nth(&self, i: usize) -> &[f32] {
        &self.v[i * self.dim..(i + 1) * self.dim]
    }
    pub fn place(&self, id: usize) -> usize {
        if self.ids.parts == 0 {
            return id;
        }
        assert!(self.knows(id), "index {} was never given to a point", id);
        ((id - self.ids.shift) / self.ids.stride + self.ids.turn) % self.n
    }
    pub fn places(&self, ids: &[usize]) -> Vec<usize> {
        ids.iter().map(|i| self.place(*i)).collect()
    }
    pub fn id(&self, place: usize) -> usize {
        if self.ids.parts == 0 {
            return place;
        }
        (place + self.n - self.ids.turn) % self.n * self.ids.stride + self.ids.shift
    }
    pub fn knows(&self, id: usize) -> bool {
        if self.ids.parts == 0 {
            return id < self.n;
        }
        id >= self.ids.shift && (id - self.ids.shift) % self.ids.stride == 0 && (id - self.ids.shift) / self.ids.stride < self.n
    }
    /// all indexes, in the order of the rows
    pub fn all_ids(&self) -> Vec<usize> {
        (0..self.n).map(|i| self.id(i)).collect()
    }
    /// an index that no point has
    pub fn stranger(&self, j: usize) -> usize {
        let mut i = self.n + j;
        while self.knows(i) {
            i += 1;
        }
        i
    }
    pub fn show(&self) -> String {
        let ids = if self.ids.parts == 0 { String::new() } else { format!(" {:?}", self.ids) };
        format!("{} n={} dim={}{} v={:?}", self.kind, self.n, self.dim, ids, &self.v[..self.v.len().min(40)])
    }
}

pub fn rdist(norm: Norm, a: &[f32], b: &[f32]) -> f64 {
    match norm {
        Norm::L1 => a.iter().zip(b).map(|(x, y)| (*x as f64 - *y as f64).abs()).sum(),
        Norm::L2 => a.iter().zip(b).map(|(x, y)| (*x as f64 - *y as f64).powi(2)).sum::<f64>().sqrt(),
    }
}

/// Relative closeness of a distance reported in f32.
pub fn near(got: f64, want: f64, rel: f64) -> bool {
    (got - want).abs() <= rel * want.abs().max(1e-30)
}

/// Closeness with an absolute part.
pub fn close(got: f64, want: f64, rel: f64, abs: f64) -> bool {
    (got - want).abs() <= rel * want.abs().max(got.abs()) + abs
}

/// A source of choices that is cheap for big inputs: small inputs come from `src` value by value (so that they
/// shrink), big ones from a generator seeded by one choice.
pub struct Vals<'a> {
    src: &'a mut Src,
    rng: Option<Rng>,
}
impl<'a> Vals<'a> {
    pub fn new(src: &'a mut Src, amount: usize) -> Vals<'a> {
        let rng = if amount > 600 { Some(Rng(src.draw(1 << 32))) } else { None };
        Vals { src, rng }
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        match &mut self.rng {
            Some(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            None => self.src.draw(n),
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        self.draw(1 << 24) as f64 / (1u64 << 24) as f64
    }
    pub fn sym(&mut self) -> f64 {
        // 0 is simplest
        let m = self.unit();
        if self.draw(2) == 1 {
            -m
        } else {
            m
        }
    }
}

pub fn gen_dim(src: &mut Src) -> usize {
    match src.draw(10) {
        0 | 1 | 2 => src.usize(1, 3),
        3 | 4 | 5 => src.usize(2, 6),
        6 | 7 => *src.pick(&[7usize, 8, 9, 10, 12]),
        8 => *src.pick(&[15usize, 16, 17, 18, 20]),
        _ => *src.pick(&[24usize, 31, 32, 33, 40, 65]),
    }
}

pub fn gen_n(src: &mut Src, max: usize) -> usize {
    match src.draw(8) {
        0 => src.usize(1, 6.min(max)),
        1 | 2 | 3 => src.usize(2, 24.min(max)),
        4 | 5 | 6 => src.usize(8.min(max), 80.min(max)),
        _ => src.usize(20.min(max), max),
    }
}

pub const KINDS: [&str; 11] =
    ["lattice", "uniform", "clusters", "duplicates", "powers", "line", "outliers", "offset", "mixed_scales", "deep", "identical"];

pub fn gen_data_with(src: &mut Src, n: usize, dim: usize) -> Data {
    let k = src.draw(KINDS.len() as u64) as usize;
    gen_data_kind(src, n, dim, KINDS[k])
}

pub fn gen_data_kind(src: &mut Src, n: usize, dim: usize, kind: &'static str) -> Data {
    let amount = n * dim;
    let mut r = Vals::new(src, amount);
    let mut v: Vec<f32> = Vec::with_capacity(amount);
    match kind {
        "lattice" => {
            let w = 1 + r.draw(9) as i64;
            for _ in 0..amount {
                v.push(r.range(0, 2 * w) as f32 - w as f32);
            }
        }
        "uniform" => {
            let s = *[1.0f64, 10.0, 0.01, 1000.0].get(r.draw(4) as usize).unwrap();
            for _ in 0..amount {
                v.push((r.sym() * s) as f32);
            }
        }
        "clusters" => {
            let c = 1 + r.draw(5) as usize;
            let centers: Vec<f64> = (0..c * dim).map(|_| (r.sym() * 50.0).round()).collect();
            let spread = 10f64.powi(-(r.draw(4) as i32));
            for _ in 0..n {
                let k = r.draw(c as u64) as usize;
                for d in 0..dim {
                    v.push((centers[k * dim + d] + r.sym() * spread) as f32);
                }
            }
        }
        "duplicates" => {
            let base = 1 + r.draw((n as u64 / 3).max(1)) as usize;
            let pool: Vec<f32> = (0..base * dim).map(|_| (r.sym() * 8.0) as f32).collect();
            for _ in 0..n {
                let k = r.draw(base as u64) as usize;
                v.extend_from_slice(&pool[k * dim..(k + 1) * dim]);
            }
        }
        "powers" => {
            // distances that sit exactly on the scales of base 2
            for _ in 0..n {
                let axis = r.draw(dim as u64) as usize;
                let e = r.range(0, 12) as i32 - 6;
                let s = if r.draw(2) == 1 { -1.0 } else { 1.0 };
                for d in 0..dim {
                    v.push(if d == axis { s * 2f32.powi(e) } else { 0.0 });
                }
            }
        }
        "line" => {
            let step = 2f32.powi(r.range(0, 6) as i32 - 3);
            for i in 0..n {
                for d in 0..dim {
                    v.push(if d == 0 { i as f32 * step } else { 0.0 });
                }
            }
        }
        "outliers" => {
            for _ in 0..n {
                let far = r.draw(6) == 5;
                for _ in 0..dim {
                    v.push((r.sym() * if far { 1000.0 } else { 1.0 }) as f32);
                }
            }
        }
        "offset" => {
            let o = (r.sym() * 500.0).round();
            for _ in 0..amount {
                v.push((o + r.sym()) as f32);
            }
        }
        "deep" => {
            // from far below the usual lowest resolution to far above one
            for _ in 0..n {
                let e = r.range(0, 60) as i32 - 40;
                for _ in 0..dim {
                    v.push((r.sym() * 2f64.powi(e)) as f32);
                }
            }
        }
        "mixed_scales" => {
            for _ in 0..n {
                let e = r.range(0, 12) as i32 - 6;
                for _ in 0..dim {
                    v.push((r.sym() * 4f64.powi(e)) as f32);
                }
            }
        }
        _ => {
            let row: Vec<f32> = (0..dim).map(|_| (r.sym() * 5.0) as f32).collect();
            for _ in 0..n {
                v.extend_from_slice(&row);
            }
        }
    }
    // -0.0 and 0.0 are the same place
    for x in v.iter_mut() {
        if *x == 0.0 {
            *x = 0.0;
        }
    }
    Data { dim, n, v, kind, ids: PLAIN }
}

pub fn gen_data(src: &mut Src, max_n: usize) -> Data {
    let dim = gen_dim(src);
    let n = gen_n(src, max_n);
    let d = gen_data_with(src, n, dim);
    src.class(d.kind);
    d
}

/// At times the points are spread over clouds that are glued, with indexes of their own.
pub fn respread(src: &mut Src, data: &mut Data) {
    if src.chance(1, 4) {
        src.class("glued_indexes");
        data.ids = Ids {
            parts: src.usize(1, 4.min(data.n)),
            stride: *src.pick(&[1usize, 2, 7, 1000, 65536, 1 << 32, (1 << 32) + 1]),
            shift: *src.pick(&[0usize, 1, 5, 255, 70000, 1 << 31, 1 << 32, 1 << 40]),
            turn: src.usize(0, data.n - 1),
        };
    }
}

/// `gen_data` for trees, whose points need not be numbered from zero
pub fn gen_points(src: &mut Src, max_n: usize) -> Data {
    let mut d = gen_data(src, max_n);
    respread(src, &mut d);
    d
}

/// Clouds past the sizes where the code goes over to chunks and threads: many points, or long ones.
pub fn gen_big(src: &mut Src, max_n: usize) -> Data {
    let max_n = if src.tier_thorough { 3 * max_n } else { max_n };
    let (n, dim) = match src.draw(8) {
        6 | 7 => {
            // nearly all as far apart as any two: nodes with hundreds of children and singletons
            let (n, dim) = (src.usize(max_n / 2, max_n), src.usize(10, 24));
            let d = gen_data_kind(src, n, dim, "uniform");
            src.class("far_apart");
            return d;
        }
        0 => (src.usize(20, max_n / 6), *src.pick(&[64usize, 100, 128, 129, 300, 784])),
        1 => (src.usize(max_n / 2, max_n), src.usize(1, 2)),
        _ => (src.usize(max_n / 4, max_n), src.usize(1, 10)),
    };
    let d = gen_data_with(src, n, dim);
    src.class(d.kind);
    src.class(if dim >= 64 { "long_points" } else { "many_points" });
    d
}

/// Clouds past the sizes where narrower counters would overflow (4096, 32768, 65536 points), short points.
pub fn gen_huge(src: &mut Src, top: usize) -> Data {
    let n = match src.draw(5) {
        4 => {
            let (n, dim) = (src.usize(4200, 6000), src.usize(14, 20));
            src.class("far_apart");
            return gen_data_kind(src, n, dim, "uniform");
        }
        0 | 1 => src.usize(3000, 9000.min(top)),
        2 => src.usize(3000, 36000.min(top)),
        _ => src.usize((top * 9) / 10, top),
    };
    let dim = src.usize(1, 3);
    let kind = *src.pick(&["uniform", "clusters", "lattice", "line", "identical", "uniform", "outliers"]);
    let d = gen_data_kind(src, n, dim, kind);
    src.class(d.kind);
    src.class(if n > 65536 { "over_65536" } else if n > 4096 { "over_4096" } else { "under_4096" });
    d
}

pub fn huge_params(src: &mut Src, n: usize) -> Params {
    let mut p = gen_params(src, n);
    p.scale_base = *src.pick(&[2.0f32, 1.5, 3.0, 4.0]);
    p.min_res = -(src.draw(12) as i32) + 2;
    p
}

pub fn gen_query(src: &mut Src, data: &Data) -> Vec<f32> {
    let dim = data.dim;
    match src.draw(7) {
        0 | 1 => {
            let i = src.draw(data.n as u64) as usize;
            data.nth(i).to_vec()
        }
        2 => {
            let i = src.draw(data.n as u64) as usize;
            let e = 10f64.powi(-(src.draw(5) as i32));
            let mut q = data.nth(i).to_vec();
            for x in q.iter_mut() {
                *x += ((src.unit() - 0.5) * e) as f32;
            }
            q
        }
        3 => {
            let i = src.draw(data.n as u64) as usize;
            let j = src.draw(data.n as u64) as usize;
            data.nth(i).iter().zip(data.nth(j)).map(|(a, b)| (a + b) / 2.0).collect()
        }
        4 => (0..dim).map(|_| (src.draw(21) as f32) - 10.0).collect(),
        5 => {
            let f = *src.pick(&[2.0f32, -1.0, 10.0, 0.5]);
            let i = src.draw(data.n as u64) as usize;
            data.nth(i).iter().map(|x| x * f).collect()
        }
        _ => {
            let s = *src.pick(&[1.0f64, 100.0, 10000.0]);
            (0..dim).map(|_| ((src.unit() - 0.5) * s) as f32).collect()
        }
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub scale_base: f32,
    pub leaf_cutoff: usize,
    pub min_res: i32,
    pub use_singletons: bool,
    pub first: bool,
    pub seed: Option<u64>,
}

/// Now and then scale bases so near to 1 that trees have hundreds of layers; powers are then too inexact for the geometry.
pub fn gen_deep(src: &mut Src, n: usize) -> Params {
    let mut p = gen_params(src, n);
    if n <= 24 && src.chance(1, 16) {
        p.scale_base = *src.pick(&[1.05f32, 1.02, 1.01, 1.004]);
    }
    p
}

pub fn gen_params(src: &mut Src, n: usize) -> Params {
    let scale_base = match src.draw(8) {
        0 | 1 | 2 => 2.0,
        3 => 1.5,
        4 => *src.pick(&[1.3f32, 1.2, 1.1]),
        5 => *src.pick(&[3.0f32, 4.0, 10.0]),
        _ => 1.2 + src.draw(200) as f32 / 100.0,
    };
    let leaf_cutoff = match src.draw(8) {
        0 | 1 | 2 => 1,
        3 => 0,
        4 | 5 => src.usize(2, 6),
        6 => src.usize(5, 30),
        _ => *src.pick(&[n.saturating_sub(1), n, n + 1, 10 * n, (1 << 16) + 1, (1 << 32) + 1, 1 << 40]),
    };
    let min_res = match src.draw(6) {
        0 if src.chance(1, 2) => -(30 + src.draw(120) as i32),
        0 | 1 => -10,
        2 | 3 => -(src.draw(30) as i32),
        4 => -(src.draw(6) as i32) + 2,
        _ => src.draw(12) as i32,
    };
    Params {
        scale_base,
        leaf_cutoff,
        min_res,
        use_singletons: !src.chance(1, 3),
        first: src.chance(1, 3),
        seed: Some(match src.draw(8) {
            0..=4 => src.draw(1 << 20),
            5 => src.draw(3),
            6 => (1 << 32) + src.draw(1 << 40),
            _ => i64::MAX as u64 - src.draw(1 << 10),
        }),
    }
}

pub fn builder(p: &Params) -> CoverTreeBuilder {
    let mut b = if p.first {
        let d = pbt::scratch_dir();
        let f = d.join("first.yml");
        if !f.exists() {
            fs::write(&f, "---\npartition_type: first\n").unwrap();
        }
        CoverTreeBuilder::from_yaml(&f)
    } else {
        CoverTreeBuilder::new()
    };
    b.set_scale_base(p.scale_base)
        .set_leaf_cutoff(p.leaf_cutoff)
        .set_min_res_index(p.min_res)
        .set_use_singletons(p.use_singletons)
        .set_verbosity(0);
    if let Some(s) = p.seed {
        b.set_rng_seed(s);
    }
    b
}

pub fn class_params(src: &mut Src, p: &Params) {
    src.class(if p.first { "first" } else { "nearest" });
    src.class(if p.use_singletons { "singletons" } else { "no_singletons" });
}

pub fn ram<M: Metric<[f32]>>(d: &Data) -> Arc<AnyCloud<M>> {
    if d.ids.parts == 0 {
        return Arc::new(AnyCloud::Plain(DataRam::<M>::new(d.v.clone(), d.dim).unwrap()));
    }
    Arc::new(AnyCloud::Glued(glue(d, |a, b| DataRam::<M>::new(d.v[a * d.dim..b * d.dim].to_vec(), d.dim).unwrap())))
}

/// The parts of the data glued together under its indexes.
pub fn glue<D: PointCloud, F: Fn(usize, usize) -> D>(d: &Data, part: F) -> HashGluedCloud<D> {
    let k = d.ids.parts;
    let mut g = HashGluedCloud::new((0..k).map(|i| part(d.n * i / k, d.n * (i + 1) / k)).collect());
    let map: Vec<(usize, usize)> = (0..d.n).map(|i| (i, d.id(i))).collect();
    g.reindex(&map).unwrap();
    g
}

/// The points as they are, or glued under other indexes.
#[derive(Debug)]
pub enum AnyCloud<M> {
    Plain(DataRam<M>),
    Glued(HashGluedCloud<DataRam<M>>),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            AnyCloud::Plain($x) => $e,
            AnyCloud::Glued($x) => $e,
        }
    };
}

impl<M: Metric<[f32]>> PointCloud for AnyCloud<M> {
    type Metric = M;
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type LabelSummary = ();
    type Label = ();
    type MetaSummary = ();
    type Metadata = ();
    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&()>> {
        each!(self, x => x.metadata(pn))
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<()>> {
        each!(self, x => x.metasummary(pns))
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&()>> {
        each!(self, x => x.label(pn))
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<()>> {
        each!(self, x => x.label_summary(pns))
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        each!(self, x => x.name(pi))
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        each!(self, x => x.index(pn))
    }
    fn names(&self) -> Vec<String> {
        each!(self, x => x.names())
    }
    fn len(&self) -> usize {
        each!(self, x => x.len())
    }
    fn is_empty(&self) -> bool {
        each!(self, x => x.is_empty())
    }
    fn dim(&self) -> usize {
        each!(self, x => x.dim())
    }
    fn reference_indexes(&self) -> Vec<usize> {
        each!(self, x => x.reference_indexes())
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        each!(self, x => x.point(i))
    }
    fn point_dense_array(&self, i: usize) -> PointCloudResult<ndarray::Array1<f32>> {
        each!(self, x => x.point_dense_array(i))
    }
    fn points_dense_matrix(&self, i: &[usize]) -> PointCloudResult<ndarray::Array2<f32>> {
        each!(self, x => x.points_dense_matrix(i))
    }
    fn distances_to_point_index(&self, i: usize, indexes: &[usize]) -> PointCloudResult<Vec<f32>> {
        each!(self, x => x.distances_to_point_index(i, indexes))
    }
    fn distances_to_point<T: Deref<Target = [f32]> + Send + Sync>(&self, q: &T, indexes: &[usize]) -> PointCloudResult<Vec<f32>> {
        each!(self, x => x.distances_to_point(q, indexes))
    }
    fn moment_1(&self, indexes: &[usize]) -> PointCloudResult<Vec<f32>> {
        each!(self, x => x.moment_1(indexes))
    }
    fn moment_2(&self, indexes: &[usize]) -> PointCloudResult<Vec<f32>> {
        each!(self, x => x.moment_2(indexes))
    }
}

/// The compressed rows of the data, explicit zeros are dropped.
pub fn sparse(d: &Data) -> SparseDataRam<f32, u32, L2> {
    let (mut vals, mut cols, mut rows) = (Vec::new(), Vec::new(), vec![0u32]);
    for i in 0..d.n {
        for (j, x) in d.row(i).iter().enumerate() {
            if *x != 0.0 {
                vals.push(*x);
                cols.push(j as u32);
            }
        }
        rows.push(vals.len() as u32);
    }
    SparseDataRam::<f32, u32, L2>::new(vals, cols, rows, d.dim)
}

#[derive(Clone, Debug, PartialEq)]
pub struct NodeInfo {
    pub addr: Addr,
    pub parent: Option<Addr>,
    pub radius: f32,
    pub coverage: usize,
    pub singletons: Vec<usize>,
    pub children: Option<(i32, Vec<Addr>)>,
}

impl NodeInfo {
    pub fn of<D: PointCloud>(n: &goko::node::CoverNode<D>) -> NodeInfo {
        NodeInfo {
            addr: n.address(),
            parent: n.parent_address(),
            radius: n.radius(),
            coverage: n.coverage_count(),
            singletons: n.singletons().to_vec(),
            children: n.children().map(|(s, a)| (s, a.to_vec())),
        }
    }
    /// nested child first, then the others in order
    pub fn all_children(&self) -> Vec<Addr> {
        match &self.children {
            None => vec![],
            Some((s, a)) => {
                let mut v = vec![(*s, self.addr.1)];
                v.extend(a.iter().copied());
                v
            }
        }
    }
    pub fn is_leaf(&self) -> bool {
        self.children.is_none()
    }
}

pub type Dump = BTreeMap<Addr, NodeInfo>;

/// Everything the reader shows, by layer.
pub fn dump<D: PointCloud>(r: &CoverTreeReader<D>) -> Dump {
    let mut out = BTreeMap::new();
    for (si, layer) in r.layers() {
        layer.for_each_node(|pi, n| {
            out.insert((si, *pi), NodeInfo::of(n));
        });
    }
    out
}

/// The points each node covers, from the node contents alone.
pub fn covered(d: &Dump, root: Addr) -> BTreeMap<Addr, Vec<usize>> {
    // post order
    let mut order = vec![];
    let mut stack = vec![root];
    while let Some(a) = stack.pop() {
        order.push(a);
        if let Some(n) = d.get(&a) {
            stack.extend(n.all_children());
        }
        if order.len() > d.len() * 2 + 10 {
            break;
        }
    }
    let mut out: BTreeMap<Addr, Vec<usize>> = BTreeMap::new();
    for a in order.iter().rev() {
        if let Some(n) = d.get(a) {
            let mut v = n.singletons.clone();
            if n.is_leaf() {
                v.push(n.addr.1);
            }
            for c in n.all_children() {
                if let Some(cv) = out.get(&c) {
                    v.extend_from_slice(cv);
                }
            }
            out.insert(*a, v);
        }
    }
    out
}

pub fn build<M: Metric<[f32]>>(d: &Data, p: &Params) -> CoverTreeWriter<AnyCloud<M>> {
    builder(p).build(ram::<M>(d)).unwrap()
}

/// A tree to ask questions of: at times one that was saved and loaded again.
pub fn made<M: Metric<[f32]>>(src: &mut Src, d: &Data, p: &Params) -> CoverTreeWriter<AnyCloud<M>> {
    let w = build::<M>(d, p);
    if src.chance(1, 8) {
        src.class("loaded");
        let cloud = Arc::clone(w.reader().point_cloud());
        return CoverTreeWriter::load(&w.save(), cloud).unwrap();
    }
    w
}

/// b^s as the tree computes it.
pub fn scale(p: &Params, s: i32) -> f64 {
    p.scale_base.powi(s) as f64
}

pub fn same_bits(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn dump_same(a: &Dump, b: &Dump) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} nodes against {}", a.len(), b.len()));
    }
    for (k, x) in a {
        match b.get(k) {
            None => return Err(format!("node {:?} is only in one of the trees", k)),
            Some(y) => {
                if x.addr != y.addr
                    || x.parent != y.parent
                    || !same_bits(x.radius, y.radius)
                    || x.coverage != y.coverage
                    || x.singletons != y.singletons
                    || x.children != y.children
                {
                    return Err(format!("node {:?}: {:?} against {:?}", k, x, y));
                }
            }
        }
    }
    Ok(())
}

pub fn add_dirichlet<D: PointCloud>(w: &mut CoverTreeWriter<D>) {
    w.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
}

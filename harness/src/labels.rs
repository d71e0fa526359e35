//! P10: node summaries, P22: label sources and the algebra of summaries.

use crate::common::*;
use crate::rich::*;
use goko::*;
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::data_sources::*;
use pointcloud::label_sources::*;
use pointcloud::metrics::*;
use pointcloud::pc_errors::*;
use pointcloud::summaries::*;
use pointcloud::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Label values far apart, where a narrower number would round or wrap.
const WIDE: [i64; 14] = [
    0,
    1,
    -1,
    (1 << 24) + 1,
    1 << 24,
    1 << 31,
    -(1 << 31) - 1,
    (1 << 32) + 1,
    (1 << 53) + 1,
    1 << 53,
    255,
    256,
    i64::MAX - 9,
    -i64::MAX,
];

pub fn gen_cells(src: &mut Src, n: usize, errors: bool) -> Vec<Cell> {
    let palette = src.draw(8);
    let classes = if palette == 7 { src.usize(10, 90) } else { src.usize(1, 9) } as i64;
    let miss = src.draw(4);
    let mut r = Vals::new(src, n);
    (0..n)
        .map(|_| {
            let d = r.draw(8);
            if errors && d == 7 {
                Err(())
            } else if d < miss {
                Ok(None)
            } else if palette == 6 {
                Ok(Some(WIDE[r.draw(WIDE.len() as u64) as usize]))
            } else {
                Ok(Some(r.range(0, classes) - 2))
            }
        })
        .collect()
}

/// counts by label, unlabelled, failed
type Count = (BTreeMap<i64, usize>, usize, usize);

pub fn count(cells: &[Cell], idx: &[usize]) -> Count {
    let mut c: Count = Default::default();
    for i in idx {
        match &cells[*i] {
            Ok(Some(x)) => *c.0.entry(*x).or_insert(0) += 1,
            Ok(None) => c.1 += 1,
            Err(_) => c.2 += 1,
        }
    }
    c
}

pub fn of_summary(s: &SummaryCounter<CategorySummary>) -> Result<Count, String> {
    let mut m = BTreeMap::new();
    for (v, n) in s.summary().items.iter() {
        if m.insert(*v, *n).is_some() {
            return Err(format!("label {} is listed twice in {:?}", v, s));
        }
    }
    Ok((m, s.nones(), s.errors()))
}

fn same(tag: &str, what: &str, got: &SummaryCounter<CategorySummary>, want: &Count) -> Res {
    match of_summary(got) {
        Err(e) => fail!(format!("{}_twice", tag), "{}: {}", what, e),
        Ok(c) => ensure!(c == *want, tag, "{}: summary {:?}, the points say {:?}", what, c, want),
    }
    let total = want.0.values().sum::<usize>() + want.1 + want.2;
    ensure!(got.count() == total, format!("{}_count", tag), "{}: count {} of {}", what, got.count(), total);
    Ok(())
}

fn p10_cells(src: &mut Src) -> Res {
    let data = gen_points(src, 120);
    p10_on(src, data)
}
fn p10_big(src: &mut Src) -> Res {
    let data = gen_big(src, 1200);
    p10_on(src, data)
}
fn p10_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    p10_with(src, data, p)
}
fn p10_on(src: &mut Src, data: Data) -> Res {
    let p = gen_params(src, data.n);
    p10_with(src, data, p)
}
fn p10_with(src: &mut Src, data: Data, p: Params) -> Res {
    class_params(src, &p);
    let errors = src.chance(1, 3);
    let labels = gen_cells(src, data.n, errors);
    let meta = gen_cells(src, data.n, errors);
    src.describe(|| format!("{} {:?} labels {:?}", data.show(), p, &labels[..labels.len().min(300)]));
    let part = |a: usize, b: usize| RichCloud {
        data: DataRam::new(data.v[a * data.dim..b * data.dim].to_vec(), data.dim).unwrap(),
        labels: labels[a..b].to_vec(),
        meta: meta[a..b].to_vec(),
        names: (a..b).map(|i| format!("p{}", i)).collect(),
    };
    if data.ids.parts == 0 {
        p10_tree(src, builder(&p).build(Arc::new(part(0, data.n))).unwrap(), &data, &labels, &meta)
    } else {
        p10_tree(src, builder(&p).build(Arc::new(glue(&data, part))).unwrap(), &data, &labels, &meta)
    }
}
fn p10_tree<D: PointCloud<LabelSummary = CategorySummary, MetaSummary = CategorySummary>>(src: &mut Src, mut w: CoverTreeWriter<D>, data: &Data, labels: &[Cell], meta: &[Cell]) -> Res {
    let early = w.reader();
    let d = dump(&early);
    let root = early.root_address();
    let cov = covered(&d, root);
    ensure!(early.get_node_label_summary(root).is_none() && early.get_node_metasummary(root).is_none(), "before", "a summary exists before it was generated");
    let order = src.draw(3);
    match order {
        0 => {
            w.generate_summaries();
            w.generate_meta_summaries();
        }
        1 => {
            w.generate_meta_summaries();
            w.generate_summaries();
        }
        _ => {
            // generating again gives the same
            w.generate_summaries();
            w.generate_meta_summaries();
            w.generate_summaries();
            w.generate_meta_summaries();
        }
    }
    if src.bool() {
        w.refresh();
    }
    let late = w.reader();
    for r in [&early, &late].iter() {
        for (a, c) in &cov {
            let c = &data.places(c);
            match r.get_node_label_summary(*a) {
                None => fail!("missing", "node {:?} has no label summary", a),
                Some(s) => same("label_summary", &format!("labels of node {:?}", a), &s, &count(labels, c))?,
            }
            match r.get_node_metasummary(*a) {
                None => fail!("missing", "node {:?} has no metadata summary", a),
                Some(s) => same("meta_summary", &format!("metadata of node {:?}", a), &s, &count(meta, c))?,
            }
            let direct = r.get_node_and(*a, |n| n.label_summary().map(|s| s.count())).flatten();
            ensure!(direct == Some(c.len()), "direct", "the node {:?} itself gives a summary over {:?} of {} points", a, direct, c.len());
        }
    }
    if d.len() >= 4 && labels.iter().any(|x| *x == Ok(None)) && labels.iter().any(|x| matches!(x, Ok(Some(_)))) {
        src.nontrivial();
    }
    Ok(())
}

fn p10_vec(src: &mut Src) -> Res {
    let data = gen_points(src, 80);
    let p = gen_params(src, data.n);
    let ld = src.usize(1, 4);
    let (lv, mask) = gen_vec_labels(src, data.n, ld);
    src.describe(|| format!("{} {:?} labels {:?} mask {:?}", data.show(), p, lv, mask));
    let part = |a: usize, b: usize| SimpleLabeledCloud::new(DataRam::<L2>::new(data.v[a * data.dim..b * data.dim].to_vec(), data.dim).unwrap(), VecLabels::new(lv[a * ld..b * ld].to_vec(), ld, mask.as_ref().map(|m| m[a..b].to_vec())));
    if data.ids.parts == 0 {
        p10_vec_tree(src, builder(&p).build(Arc::new(part(0, data.n))).unwrap(), &data, &lv, ld, &mask)
    } else {
        p10_vec_tree(src, builder(&p).build(Arc::new(glue(&data, part))).unwrap(), &data, &lv, ld, &mask)
    }
}
fn p10_vec_tree<D: PointCloud<LabelSummary = VecSummary>>(src: &mut Src, mut w: CoverTreeWriter<D>, data: &Data, lv: &[f32], ld: usize, mask: &Option<Vec<bool>>) -> Res {
    w.generate_summaries();
    let r = w.reader();
    let d = dump(&r);
    let cov = covered(&d, r.root_address());
    for (a, c) in &cov {
        let s = match r.get_node_label_summary(*a) {
            None => fail!("missing", "node {:?} has no label summary", a),
            Some(s) => s,
        };
        vec_summary_is("vec_summary", &s, lv, ld, mask, &data.places(c))?;
    }
    if d.len() >= 4 {
        src.nontrivial();
    }
    Ok(())
}

fn p10_ints(src: &mut Src) -> Res {
    let data = gen_points(src, 100);
    let p = gen_params(src, data.n);
    let cells = gen_cells(src, data.n, false);
    src.describe(|| format!("{} {:?} labels {:?}", data.show(), p, cells));
    let part = |src: &mut Src, a: usize, b: usize| SimpleLabeledCloud::new(DataRam::<L2>::new(data.v[a * data.dim..b * data.dim].to_vec(), data.dim).unwrap(), int_labels(src, &cells[a..b]));
    if data.ids.parts == 0 {
        let c = part(src, 0, data.n);
        p10_int_tree(src, builder(&p).build(Arc::new(c)).unwrap(), &data, &cells)
    } else {
        let s = std::cell::RefCell::new(src);
        let c = glue(&data, |a, b| part(&mut s.borrow_mut(), a, b));
        p10_int_tree(s.into_inner(), builder(&p).build(Arc::new(c)).unwrap(), &data, &cells)
    }
}
fn p10_int_tree<D: PointCloud<LabelSummary = CategorySummary>>(src: &mut Src, mut w: CoverTreeWriter<D>, data: &Data, cells: &[Cell]) -> Res {
    w.generate_summaries();
    let r = w.reader();
    let d = dump(&r);
    for (a, c) in &covered(&d, r.root_address()) {
        match r.get_node_label_summary(*a) {
            None => fail!("missing", "node {:?} has no label summary", a),
            Some(s) => same("label_summary", &format!("labels of node {:?}", a), &s, &count(cells, &data.places(c)))?,
        }
    }
    if d.len() >= 4 {
        src.nontrivial();
    }
    Ok(())
}

/// Integer labels that show these cells.
pub fn int_labels(src: &mut Src, cells: &[Cell]) -> SmallIntLabels {
    let hidden = *src.pick(&[-77i64, 0, 1, i64::MIN, i64::MAX]);
    let v: Vec<i64> = cells.iter().map(|c| c.unwrap().unwrap_or(hidden)).collect();
    let m: Vec<bool> = cells.iter().map(|c| c.unwrap().is_some()).collect();
    if m.iter().all(|x| *x) && src.bool() {
        SmallIntLabels::new(v, None)
    } else {
        SmallIntLabels::new(v, Some(m))
    }
}

fn gen_vec_labels(src: &mut Src, n: usize, ld: usize) -> (Vec<f32>, Option<Vec<bool>>) {
    let masked = src.bool();
    let mut r = Vals::new(src, n * (ld + 1));
    let lv: Vec<f32> = (0..n * ld).map(|_| r.range(0, 16) as f32 / 4.0 - 2.0).collect();
    let mask = if masked { Some((0..n).map(|_| r.draw(3) > 0).collect()) } else { None };
    (lv, mask)
}

fn vec_summary_is(tag: &str, s: &SummaryCounter<VecSummary>, lv: &[f32], ld: usize, mask: &Option<Vec<bool>>, idx: &[usize]) -> Res {
    let on: Vec<usize> = idx.iter().cloned().filter(|i| mask.as_ref().map(|m| m[*i]).unwrap_or(true)).collect();
    ensure!(s.nones() == idx.len() - on.len(), format!("{}_nones", tag), "{} unlabelled of {}", s.nones(), idx.len() - on.len());
    ensure!(s.errors() == 0, format!("{}_errors", tag), "errors {}", s.errors());
    ensure!(s.summary().count() == on.len() && s.count() == idx.len(), format!("{}_count", tag), "counts {} and {} for {} labelled of {}", s.summary().count(), s.count(), on.len(), idx.len());
    for j in 0..ld {
        let m1: f64 = on.iter().map(|i| lv[i * ld + j] as f64).sum();
        let m2: f64 = on.iter().map(|i| (lv[i * ld + j] as f64).powi(2)).sum();
        let g1 = s.summary().moment1.get(j).cloned().unwrap_or(0.0) as f64;
        let g2 = s.summary().moment2.get(j).cloned().unwrap_or(0.0) as f64;
        ensure!(close(g1, m1, 1e-4, 1e-4) && close(g2, m2, 1e-4, 1e-4), format!("{}_moments", tag), "moments {} {} of column {} should be {} {}", g1, g2, j, m1, m2);
    }
    Ok(())
}

// ---------------------------------------------------------------- P22

/// A history of merges against the plain list of optional labels.
fn p22_ints(src: &mut Src) -> Res {
    let n = src.small(0, 30);
    let mut cells = gen_cells(src, n, false);
    let mut set = int_labels(src, &cells);
    let merges = src.usize(0, 4);
    let mut mixed = false;
    for _ in 0..merges {
        let m = src.small(0, 20);
        let more = gen_cells(src, m, false);
        let other = int_labels(src, &more);
        mixed |= !more.is_empty() && !cells.is_empty();
        set.merge(&other);
        cells.extend(more);
    }
    src.describe(|| format!("{} merges, labels {:?}", merges, cells));
    ensure!(set.len() == cells.len(), "len", "{} labels of {}", set.len(), cells.len());
    ensure!(set.is_empty() == cells.is_empty(), "empty", "is_empty {} with {} labels", set.is_empty(), cells.len());
    for (i, c) in cells.iter().enumerate() {
        match set.label(i) {
            Ok(x) => ensure!(x.cloned() == c.unwrap(), "label", "label {} is {:?}, it was given as {:?}", i, x, c),
            Err(e) => fail!("label_error", "label {}: {:?}", i, e),
        }
    }
    if !cells.is_empty() {
        let idx: Vec<usize> = (0..src.small(0, 40)).map(|_| src.usize(0, cells.len() - 1)).collect();
        let s = set.label_summary(&idx).unwrap();
        same("subset_summary", &format!("indexes {:?}", idx), &s, &count(&cells, &idx))?;
    }
    if mixed && cells.iter().any(|c| *c == Ok(None)) && cells.iter().any(|c| matches!(c, Ok(Some(_)))) {
        src.nontrivial();
    }
    Ok(())
}

fn p22_vecs(src: &mut Src) -> Res {
    let n = src.small(0, 30);
    let wide = src.chance(1, 12);
    let n = if wide { n.min(8) } else { n };
    let ld = if wide { src.usize(6, 700) } else { src.usize(1, 5) };
    let (mut lv, mask) = gen_vec_labels(src, n, ld);
    let one_hot = src.bool();
    if one_hot {
        // mostly proper one hot rows, some all zero, some with several
        for i in 0..n {
            let kind = src.draw(6);
            let hot = src.draw(ld as u64) as usize;
            for j in 0..ld {
                lv[i * ld + j] = if kind == 5 {
                    0.0
                } else if kind == 4 {
                    if j >= hot { 1.0 } else { 0.5 }
                } else if j == hot {
                    1.0
                } else {
                    0.0
                };
            }
        }
    }
    src.describe(|| format!("dim {} labels {:?} mask {:?}", ld, lv, mask));
    let set = VecLabels::new(lv.clone(), ld, mask.clone());
    ensure!(set.dim() == ld, "vec_dim", "dim {} of {}", set.dim(), ld);
    ensure!(set.len() == n, "vec_len", "{} labels of {}", set.len(), n);
    ensure!(set.is_empty() == (n == 0), "vec_empty", "is_empty {} with {} labels", set.is_empty(), n);
    let on = |i: usize| mask.as_ref().map(|m| m[i]).unwrap_or(true);
    for i in 0..n {
        let got = set.label(i).unwrap();
        let want = if on(i) { Some(&lv[i * ld..(i + 1) * ld]) } else { None };
        ensure!(got == want, "vec_label", "label {} is {:?}, given {:?}", i, got, want);
    }
    if n > 0 {
        let idx: Vec<usize> = (0..src.small(0, 30)).map(|_| src.usize(0, n - 1)).collect();
        let s = set.label_summary(&idx).unwrap();
        vec_summary_is("vec_subset", &s, &lv, ld, &mask, &idx)?;
    }
    let ints = set.one_hot_to_int();
    ensure!(ints.len() == n, "one_hot_len", "{} of {}", ints.len(), n);
    for i in 0..n {
        let hot = (0..ld).find(|j| lv[i * ld + j] > 0.5).map(|j| j as i64);
        let want = if on(i) { hot } else { None };
        ensure!(ints.label(i).unwrap().cloned() == want, "one_hot", "row {:?} (visible {}) became {:?}", &lv[i * ld..(i + 1) * ld], on(i), ints.label(i));
    }
    if ld == 1 {
        let b = set.binary_to_int();
        ensure!(b.len() == n, "binary_len", "{} of {}", b.len(), n);
        for i in 0..n {
            let want = if on(i) { Some((lv[i] > 0.5) as i64) } else { None };
            ensure!(b.label(i).unwrap().cloned() == want, "binary", "{} (visible {}) became {:?}", lv[i], on(i), b.label(i));
        }
    }
    if n >= 3 {
        src.nontrivial();
    }
    Ok(())
}

/// Combining the summaries of the parts of a list gives the summary of the list.
fn fold<S: Summary, L, F: Fn(&L) -> &S::Label>(src: &mut Src, items: &[Option<L>], fails: &[bool], get: F) -> SummaryCounter<S> {
    // cut into parts, summarise each, combine in a tree of some order
    let mut parts: Vec<SummaryCounter<S>> = vec![];
    let mut i = 0;
    while i < items.len() || parts.is_empty() {
        let len = src.usize(0, 4).min(items.len() - i);
        let mut s = SummaryCounter::<S>::default();
        for j in i..i + len {
            if fails[j] {
                s.add(Err(PointCloudError::UnknownName));
            } else {
                s.add(Ok(items[j].as_ref().map(|x| get(x))));
            }
        }
        parts.push(s);
        i += len;
        if parts.len() > items.len() + 8 {
            // the rest in one part
            let mut s = SummaryCounter::<S>::default();
            for j in i..items.len() {
                if fails[j] {
                    s.add(Err(PointCloudError::UnknownName));
                } else {
                    s.add(Ok(items[j].as_ref().map(|x| get(x))));
                }
            }
            parts.push(s);
            break;
        }
    }
    if src.bool() {
        parts.insert(src.usize(0, parts.len()), SummaryCounter::<S>::default());
    }
    while parts.len() > 1 {
        let a = src.usize(0, parts.len() - 1);
        let x = parts.remove(a);
        let b = src.usize(0, parts.len() - 1);
        parts[b].combine(&x);
    }
    parts.pop().unwrap()
}

fn p22_algebra(src: &mut Src) -> Res {
    let n = src.small(0, 30);
    let fails: Vec<bool> = (0..n).map(|_| src.chance(1, 6)).collect();
    let mut vals: Vec<Option<i64>> = (0..n).map(|_| if src.chance(1, 5) { None } else { Some(src.range(-6, 6)) }).collect();
    // one value beyond 32 bits, whose square still fits
    if n > 0 && src.chance(1, 4) {
        let at = src.usize(0, n - 1);
        vals[at] = Some(*src.pick(&[1i64 << 31, -(1 << 31) - 1, 3_000_000_000, 65536, -46341, 1 << 24]));
    }
    let vals = vals;
    src.describe(|| format!("{:?} fails {:?}", vals, fails));
    let live: Vec<i64> = vals.iter().zip(&fails).filter(|(_, f)| !**f).filter_map(|(v, _)| *v).collect();
    let errors = fails.iter().filter(|f| **f).count();
    let nones = n - errors - live.len();
    let mut by: BTreeMap<i64, usize> = BTreeMap::new();
    live.iter().for_each(|v| *by.entry(*v).or_insert(0) += 1);
    let m1: i64 = live.iter().sum();
    let m2: i64 = live.iter().map(|x| x * x).sum();

    let c = fold::<CategorySummary, i64, _>(src, &vals, &fails, |x| x);
    same("category", "categories", &c, &(by.clone(), nones, errors))?;

    let c = fold::<IntSummary, i64, _>(src, &vals, &fails, |x| x);
    ensure!((c.summary.moment1, c.summary.moment2, c.summary.count) == (m1, m2, live.len()), "int", "{:?} for {:?}", c, live);
    ensure!((c.nones(), c.errors(), c.count()) == (nones, errors, n), "int_counts", "{:?}", c);

    let fv: Vec<Option<f64>> = vals.iter().map(|v| v.map(|x| x as f64 / 4.0)).collect();
    let c = fold::<FloatSummary, f64, _>(src, &fv, &fails, |x| x);
    ensure!(
        close(c.summary.moment1, m1 as f64 / 4.0, 1e-9, 1e-9) && close(c.summary.moment2, m2 as f64 / 16.0, 1e-9, 1e-9) && c.summary.count == live.len(),
        "float", "{:?} for {:?}", c, live
    );
    ensure!((c.nones(), c.errors(), c.count()) == (nones, errors, n), "float_counts", "{:?}", c);

    // words that differ only by case, blanks or accents are different words
    let odd = src.bool();
    let word = move |x: i64| match x {
        0 if odd => "".to_string(),
        1 if odd => " ".to_string(),
        2 if odd => "s".to_string(),
        3 if odd => "S".to_string(),
        4 if odd => "s ".to_string(),
        5 if odd => " s".to_string(),
        6 if odd => "\u{e9}".to_string(),
        -1 if odd => "e".to_string(),
        -2 if odd => "s\n".to_string(),
        x => format!("s{}", x),
    };
    let sv: Vec<Option<String>> = vals.iter().map(|v| v.map(&word)).collect();
    let c = fold::<StringSummary, String, _>(src, &sv, &fails, |x| x);
    let got: BTreeMap<String, usize> = c.summary.items.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let want: BTreeMap<String, usize> = by.iter().map(|(k, v)| (word(*k), *v)).collect();
    ensure!(got == want, "string", "{:?} against {:?}", got, want);
    ensure!((c.nones(), c.errors(), c.count()) == (nones, errors, n), "string_counts", "{:?}", c);

    let ld = src.usize(1, 3);
    let vv: Vec<Option<Vec<f32>>> = vals.iter().map(|v| v.map(|x| (0..ld).map(|j| x as f32 + j as f32).collect())).collect();
    let c = fold::<VecSummary, Vec<f32>, _>(src, &vv, &fails, |x| &x[..]);
    ensure!((c.nones(), c.errors(), c.count()) == (nones, errors, n), "vec_counts", "{:?}", c);
    for j in 0..ld {
        let w1: f64 = live.iter().map(|x| *x as f64 + j as f64).sum();
        let w2: f64 = live.iter().map(|x| (*x as f64 + j as f64).powi(2)).sum();
        let g1 = c.summary.moment1.get(j).cloned().unwrap_or(0.0) as f64;
        let g2 = c.summary.moment2.get(j).cloned().unwrap_or(0.0) as f64;
        ensure!(close(g1, w1, 1e-5, 1e-5) && close(g2, w2, 1e-5, 1e-5), "vec", "column {} of {:?} should be {} {}", j, c, w1, w2);
    }
    if live.len() >= 3 && by.len() >= 2 {
        src.nontrivial();
    }
    Ok(())
}

/// Long label sets, with many kinds of labels.
fn p22_long(src: &mut Src) -> Res {
    let n = *src.pick(&[1000usize, 300, 5000, 65536, 66000, 70000]);
    let kinds = *src.pick(&[2u64, 60, 70, 255, 256, 257, 1000, 3000]);
    let kinds = if n > 60000 { kinds.min(70) } else { kinds };
    let masked = src.bool();
    let ld = src.usize(1, 3);
    let mut r = Vals::new(src, usize::MAX);
    let cells: Vec<Cell> = (0..n).map(|_| if masked && r.draw(4) == 0 { Ok(None) } else { Ok(Some(r.draw(kinds) as i64)) }).collect();
    let (lv, mask): (Vec<f32>, Option<Vec<bool>>) = ((0..n * ld).map(|_| r.range(0, 16) as f32 / 4.0).collect(), if masked { Some(cells.iter().map(|c| c.unwrap().is_some()).collect()) } else { None });
    src.describe(|| format!("{} labels of {} kinds, masked {}, vectors of {}", n, kinds, masked, ld));
    src.class(if n > 65536 { "over_65536" } else { "under_65536" });
    src.nontrivial();
    // set together from two parts
    let cut = *src.pick(&[0usize, n / 3, 255, 256, n]);
    let cut = cut.min(n);
    let mut set = int_labels(src, &cells[..cut]);
    let other = int_labels(src, &cells[cut..]);
    set.merge(&other);
    ensure!(set.len() == n, "long_len", "{} labels of {}", set.len(), n);
    for (i, c) in cells.iter().enumerate() {
        ensure!(set.label(i).unwrap().cloned() == c.unwrap(), "long_label", "label {} is {:?}, it was given as {:?}", i, set.label(i), c);
    }
    let from = src.usize(0, n - 1);
    let idx: Vec<usize> = (from..n).step_by(src.usize(1, 3)).chain(n.saturating_sub(5)..n).collect();
    let s = set.label_summary(&idx).unwrap();
    same("long_summary", "many indexes", &s, &count(&cells, &idx))?;
    // the same from two halves
    let half = src.usize(0, idx.len());
    let mut a = set.label_summary(&idx[..half]).unwrap();
    a.combine(&set.label_summary(&idx[half..]).unwrap());
    same("long_combined", "two halves", &a, &count(&cells, &idx))?;
    let words = |idx: &[usize]| {
        let mut s = SummaryCounter::<StringSummary>::default();
        for i in idx {
            s.add(Ok(cells[*i].unwrap().map(|x| format!("w{}", x)).as_ref()));
        }
        s
    };
    let mut b = words(&idx[..half]);
    b.combine(&words(&idx[half..]));
    let got: BTreeMap<i64, usize> = b.summary.items.iter().map(|(k, v)| (k[1..].parse().unwrap(), *v)).collect();
    ensure!((got, b.nones(), b.errors()) == count(&cells, &idx), "long_words", "{} words", b.summary.items.len());

    let vecs = VecLabels::new(lv.clone(), ld, mask.clone());
    ensure!(vecs.len() == n, "long_vec_len", "{} of {}", vecs.len(), n);
    for i in (0..n).rev().step_by(7) {
        let want = if mask.as_ref().map(|m| m[i]).unwrap_or(true) { Some(&lv[i * ld..(i + 1) * ld]) } else { None };
        ensure!(vecs.label(i).unwrap() == want, "long_vec_label", "label {} is {:?} not {:?}", i, vecs.label(i), want);
    }
    // sums of quarters stay exact in f32
    let few: Vec<usize> = idx.iter().rev().take(3000).copied().collect();
    vec_summary_is("long_vec", &vecs.label_summary(&few).unwrap(), &lv, ld, &mask, &few)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P10",
            rule: "at least 4 nodes, and both labelled and unlabelled points where labels can be missing",
            assumptions: vec!["vector summaries are sums in f32 and compared with a slack of 1e-4"],
            subs: vec![sub("cells", p10_cells, 24000, 500000), sub("big", p10_big, 320, 8000), sub("huge", p10_huge, 24, 300), sub("ints", p10_ints, 12000, 250000), sub("vectors", p10_vec, 12000, 250000)],
        },
        Prop {
            id: "P22",
            rule: "merged label sets with labelled and unlabelled entries; at least 3 vector labels; at least 3 labels of 2 kinds",
            assumptions: vec!["only indexes inside the label set are asked for"],
            subs: vec![sub("ints", p22_ints, 60000, 1500000), sub("vectors", p22_vecs, 60000, 1500000), sub("algebra", p22_algebra, 60000, 1500000), sub("long", p22_long, 400, 10000)],
        },
    ]
}

//! A cloud with labels, metadata and names that can be missing or fail, built on the crate's own data source.

use pointcloud::data_sources::*;
use pointcloud::metrics::L2;
use pointcloud::pc_errors::*;
use pointcloud::summaries::*;
use pointcloud::*;

/// Ok(Some) labelled, Ok(None) unlabelled, Err fails
pub type Cell = Result<Option<i64>, ()>;

#[derive(Debug)]
pub struct RichCloud {
    pub data: DataRam<L2>,
    pub labels: Vec<Cell>,
    pub meta: Vec<Cell>,
    pub names: Vec<String>,
}

fn get(c: &[Cell], i: usize) -> PointCloudResult<Option<&i64>> {
    match c.get(i) {
        Some(Ok(Some(x))) => Ok(Some(x)),
        Some(Ok(None)) => Ok(None),
        _ => Err(PointCloudError::data_access(i, "rich".to_string())),
    }
}
fn summary(c: &[Cell], pns: &[usize]) -> SummaryCounter<CategorySummary> {
    let mut s = SummaryCounter::<CategorySummary>::default();
    for i in pns {
        s.add(get(c, *i));
    }
    s
}

impl PointCloud for RichCloud {
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type Metric = L2;
    type Label = i64;
    type LabelSummary = CategorySummary;
    type Metadata = i64;
    type MetaSummary = CategorySummary;

    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
        get(&self.meta, pn)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> {
        Ok(summary(&self.meta, pns))
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
        get(&self.labels, pn)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> {
        Ok(summary(&self.labels, pns))
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.names.get(pi).cloned().ok_or(PointCloudError::UnknownName)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.names.iter().position(|n| n == pn).ok_or(PointCloudError::UnknownName)
    }
    fn names(&self) -> Vec<String> {
        self.names.clone()
    }
    fn len(&self) -> usize {
        self.data.len()
    }
    fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    fn dim(&self) -> usize {
        self.data.dim()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.data.reference_indexes()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        self.data.point(i)
    }
}

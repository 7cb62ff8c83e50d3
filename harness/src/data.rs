//! Random tables (unique ids, exactly representable floats), as monitored leaves or parquet files.
use crate::leaf::*;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::catalog::MemTable;
use datafusion::common::Result;
use datafusion::prelude::{ParquetReadOptions, SessionContext};
use parquet::arrow::ArrowWriter;
use rand::Rng;
use rand::rngs::StdRng;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::sync::atomic::AtomicU64;

pub fn schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("id", DataType::Int64, false),
        Field::new("k", DataType::Int32, true),
        Field::new("g", DataType::Utf8, true),
        Field::new("v", DataType::Int64, true),
        Field::new("f", DataType::Float64, true),
        Field::new("d", DataType::Date32, true),
        Field::new("b", DataType::Boolean, true),
        Field::new("m", DataType::Decimal128(12, 2), true),
    ]))
}

pub fn gen_batch(r: &mut StdRng, base: i64, n: usize, krange: i32, skew: bool) -> RecordBatch {
    let gs = ["a", "b", "cc", "ddd", "é", "", "longer string value here", "zz"];
    let ids: Vec<i64> = (0..n as i64).map(|i| base + i).collect();
    let nullp = if r.random_bool(0.2) { 0.0 } else { 0.12 };
    let opt = |r: &mut StdRng| -> bool { !r.random_bool(nullp) };
    let k: Int32Array = (0..n)
        .map(|_| opt(r).then(|| if skew && r.random_bool(0.7) { 1 } else { r.random_range(0..krange.max(1)) }))
        .collect();
    let g: StringArray = (0..n).map(|_| opt(r).then(|| gs[r.random_range(0..gs.len())])).collect();
    let v: Int64Array = (0..n).map(|_| opt(r).then(|| r.random_range(-500..500))).collect();
    let f: Float64Array = (0..n).map(|_| opt(r).then(|| r.random_range(-400..400) as f64 * 0.25)).collect();
    let d: Date32Array = (0..n).map(|_| opt(r).then(|| r.random_range(18000..18100))).collect();
    let b: BooleanArray = (0..n).map(|_| opt(r).then(|| r.random_bool(0.5))).collect();
    let m: Decimal128Array = (0..n).map(|_| opt(r).then(|| r.random_range(-100000i128..100000))).collect();
    let m = m.with_precision_and_scale(12, 2).unwrap();
    RecordBatch::try_new(
        schema(),
        vec![Arc::new(Int64Array::from(ids)), Arc::new(k), Arc::new(g), Arc::new(v), Arc::new(f), Arc::new(d), Arc::new(b), Arc::new(m)],
    )
    .unwrap()
}

#[derive(Clone, Debug)]
pub struct TableSpec {
    pub name: String,
    pub rows: usize,
    pub chunks: usize,
    pub batches_per_chunk: usize,
    pub krange: i32,
    pub skew: bool,
    pub empty_chunks: bool,
    pub sorted: bool,
    pub parquet: bool,
    /// Partition directories by `k`.
    pub hive: bool,
    pub hint: Hint,
    pub stats: StatMode,
    pub keep_parts: bool,
    pub n_parts: usize,
    pub yields: bool,
}

pub fn random_spec(r: &mut StdRng, name: &str, max_rows: usize, max_hint: usize) -> TableSpec {
    let rows = match r.random_range(0..12) {
        0 => 0,
        1 => 1,
        2 => r.random_range(2..8),
        _ => r.random_range(8..max_rows.max(10)),
    };
    let hive = r.random_bool(0.14);
    TableSpec {
        name: name.into(),
        rows,
        hive,
        chunks: *[1usize, 2, 3, 4, 5, 7, 8].get(r.random_range(0..7)).unwrap(),
        batches_per_chunk: r.random_range(1..4),
        krange: if hive { r.random_range(1..9) } else { *[1, 3, 10, 40, 200].get(r.random_range(0..5)).unwrap() },
        skew: r.random_bool(0.25),
        empty_chunks: r.random_bool(0.25),
        sorted: r.random_bool(0.15),
        parquet: hive | r.random_bool(0.33),
        hint: match r.random_range(0..10) {
            0 => Hint::None,
            1 | 2 => Hint::Maximum(r.random_range(1..=max_hint)),
            _ => Hint::Desired(r.random_range(1..=max_hint)),
        },
        stats: pick_stats(r),
        keep_parts: r.random_bool(0.5),
        n_parts: r.random_range(1..5),
        yields: r.random_bool(0.3),
    }
}

/// Chunk → batches with unique ids.
pub fn gen_chunks(r: &mut StdRng, s: &TableSpec, table_no: usize) -> Vec<Vec<RecordBatch>> {
    let mut base = table_no as i64 * 1_000_000;
    let mut out = vec![];
    let per = s.rows / s.chunks;
    let mut left = s.rows;
    for c in 0..s.chunks {
        let n = if c + 1 == s.chunks {
            left
        } else if s.empty_chunks && r.random_bool(0.5) {
            0
        } else {
            r.random_range(0..=per * 2).min(left)
        };
        left -= n;
        let mut chunk = vec![];
        let mut m = n;
        for bi in 0..s.batches_per_chunk {
            let x = if bi + 1 == s.batches_per_chunk { m } else { r.random_range(0..=m) };
            m -= x;
            if x == 0 && !(s.empty_chunks && bi == 0) {
                continue;
            }
            chunk.push(gen_batch(r, base, x, s.krange, s.skew));
            base += x as i64;
        }
        out.push(chunk);
    }
    // `sorted` tables are ordered by id within each chunk by construction
    out
}

pub struct Tables {
    pub specs: Vec<TableSpec>,
    pub data: Vec<Arc<TableData>>,
    pub dir: Option<PathBuf>,
    /// tables read through work unit feeds
    pub feeds: std::sync::Mutex<std::collections::BTreeMap<String, Arc<crate::feed::FeedShared>>>,
}
impl Drop for Tables {
    fn drop(&mut self) {
        for t in &self.data {
            unregister(t.id);
        }
        for f in self.feeds.lock().unwrap().values() {
            f.forget();
        }
    }
}

impl Tables {
    pub fn build(r: &mut StdRng, specs: Vec<TableSpec>, scratch: &Path, beat: Arc<AtomicU64>) -> Tables {
        let mut data = vec![];
        let mut dir = None;
        for (i, s) in specs.iter().enumerate() {
            let mut chunks = gen_chunks(r, s, i + 1);
            if s.hive {
                for b in chunks.iter_mut().flatten() {
                    *b = without_null_k(b);
                }
            }
            let mut t = TableData::new(&s.name, schema(), chunks, Arc::clone(&beat));
            t.n_parts = s.n_parts;
            t.hint = s.hint;
            t.stats = s.stats;
            t.keep_parts = s.keep_parts;
            t.yields = s.yields;
            if s.sorted {
                t.order_by = Some(("id".into(), false, false));
            }
            if s.parquet {
                let d = scratch.join(&s.name);
                std::fs::create_dir_all(&d).unwrap();
                if s.hive {
                    write_hive(&d, &t.chunks);
                }
                for (ci, c) in t.chunks.iter().enumerate().filter(|_| !s.hive) {
                    let f = std::fs::File::create(d.join(format!("p{ci}.parquet"))).unwrap();
                    let mut w = ArrowWriter::try_new(f, schema(), None).unwrap();
                    for b in c {
                        w.write(b).unwrap();
                    }
                    w.close().unwrap();
                }
                dir = Some(scratch.to_path_buf());
            }
            data.push(t.register());
        }
        Tables { specs, data, dir, feeds: Default::default() }
    }

    pub fn mon(&self, name: &str) -> Arc<TableData> {
        Arc::clone(self.data.iter().find(|t| t.name == name).unwrap())
    }

    /// Tables as the engine under test sees them (monitored leaves or parquet).
    pub async fn register(&self, ctx: &SessionContext) -> Result<()> {
        for (s, t) in self.specs.iter().zip(&self.data) {
            let feed = self.feeds.lock().unwrap().get(&s.name).cloned();
            if let Some(f) = feed {
                ctx.register_table(&s.name, Arc::new(crate::feed::FeedTable(f)))?;
            } else if s.parquet {
                let d = self.dir.as_ref().unwrap().join(&s.name);
                let mut o = ParquetReadOptions::default();
                if s.sorted {
                    o = o.file_sort_order(vec![vec![datafusion::prelude::col("id").sort(true, false)]]);
                }
                let files = file_schema(&t.schema);
                let o = if s.hive { o.schema(&files).table_partition_cols(vec![("k".into(), DataType::Int32)]) } else { o.schema(&t.schema) };
                ctx.register_parquet(&s.name, d.to_str().unwrap(), o).await?;
            } else {
                ctx.register_table(&s.name, Arc::new(MonTable(Arc::clone(t))))?;
            }
        }
        Ok(())
    }

    /// The same rows in one in-memory partition, independent of the monitored leaf.
    pub fn register_plain(&self, ctx: &SessionContext) -> Result<()> {
        for (s, t) in self.specs.iter().zip(&self.data) {
            let b: Vec<RecordBatch> = t.chunks.iter().flatten().cloned().collect();
            ctx.register_table(&s.name, Arc::new(MemTable::try_new(Arc::clone(&t.schema), vec![b])?))?;
        }
        Ok(())
    }
    pub fn live(&self) -> i64 {
        self.data.iter().map(|t| t.probe.live.load(std::sync::atomic::Ordering::SeqCst)).sum()
    }
    pub fn streams(&self) -> usize {
        self.data.iter().map(|t| t.probe.recs.lock().unwrap().len()).sum()
    }
}

fn without_null_k(b: &RecordBatch) -> RecordBatch {
    let k = b.column(1).as_primitive::<Int32Type>();
    let k: Int32Array = k.iter().map(|v| Some(v.unwrap_or(0))).collect();
    let mut c = b.columns().to_vec();
    c[1] = Arc::new(k);
    RecordBatch::try_new(b.schema(), c).unwrap()
}

fn other_columns(s: &SchemaRef) -> Vec<usize> {
    (0..s.fields().len()).filter(|i| *i != 1).collect()
}

fn file_schema(s: &SchemaRef) -> datafusion::arrow::datatypes::Schema {
    s.project(&other_columns(s)).unwrap()
}

/// A directory per value of `k`, with a file per chunk that has rows of it.
fn write_hive(d: &Path, chunks: &[Vec<RecordBatch>]) {
    use datafusion::arrow::compute::kernels::cmp::eq;
    for (ci, c) in chunks.iter().enumerate() {
        let mut ks: Vec<i32> = c.iter().flat_map(|b| b.column(1).as_primitive::<Int32Type>().values().to_vec()).collect();
        ks.sort();
        ks.dedup();
        for k in ks {
            let d = d.join(format!("k={k}"));
            std::fs::create_dir_all(&d).unwrap();
            let f = std::fs::File::create(d.join(format!("p{ci}.parquet"))).unwrap();
            let mut w: Option<ArrowWriter<std::fs::File>> = None;
            let mut f = Some(f);
            for b in c {
                let m = eq(b.column(1), &Int32Array::new_scalar(k)).unwrap();
                let b = datafusion::arrow::compute::filter_record_batch(b, &m).unwrap().project(&other_columns(&b.schema())).unwrap();
                w.get_or_insert_with(|| ArrowWriter::try_new(f.take().unwrap(), b.schema(), None).unwrap()).write(&b).unwrap();
            }
            w.unwrap().close().unwrap();
        }
    }
}

fn pick_stats(r: &mut StdRng) -> StatMode {
    match r.random_range(0..12) {
        0..=4 => StatMode::Exact,
        5..=7 => StatMode::Inexact,
        8..=9 => StatMode::Absent,
        10 => StatMode::Wild(crate::qcfg::pick(r, &[0, 1, 1_000_000, 1 << 40])),
        _ => StatMode::Wild(crate::qcfg::pick(r, &[usize::MAX / 64, usize::MAX, 1 << 62])),
    }
}

//! Result comparison: multisets, order, limits.
use crate::sqlgen::Query;
use datafusion::arrow::array::RecordBatch;
use datafusion::arrow::compute::SortOptions;
use datafusion::arrow::row::{RowConverter, SortField};
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use std::collections::HashMap;

pub type Row = String;

pub fn rows_of(batches: &[RecordBatch]) -> Vec<Row> {
    let o = FormatOptions::default().with_null("∅");
    let mut out = vec![];
    for b in batches {
        let f: Vec<ArrayFormatter> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &o).unwrap()).collect();
        for i in 0..b.num_rows() {
            let mut s = String::new();
            for x in &f {
                s.push_str(&x.value(i).to_string());
                s.push('|');
            }
            out.push(s);
        }
    }
    out
}

pub fn counts(rows: &[Row]) -> HashMap<&str, i64> {
    let mut m = HashMap::new();
    for r in rows {
        *m.entry(r.as_str()).or_default() += 1;
    }
    m
}

pub fn diff(exp: &[Row], got: &[Row]) -> Option<String> {
    let mut m = counts(exp);
    for r in got {
        *m.entry(r.as_str()).or_default() -= 1;
    }
    let mut miss: Vec<_> = m.iter().filter(|x| *x.1 > 0).collect();
    let mut extra: Vec<_> = m.iter().filter(|x| *x.1 < 0).collect();
    if miss.is_empty() && extra.is_empty() {
        return None;
    }
    miss.sort();
    extra.sort();
    let show = |v: &[(&&str, &i64)]| v.iter().take(4).map(|x| format!("{}x{}", x.0, x.1.abs())).collect::<Vec<_>>().join("  ");
    Some(format!(
        "expected {} rows, got {}; missing {} [{}] unexpected {} [{}]",
        exp.len(), got.len(), miss.len(), show(&miss), extra.len(), show(&extra)
    ))
}

pub fn submultiset(sub: &[Row], sup: &[Row]) -> Option<String> {
    let m = counts(sup);
    for (r, n) in counts(sub) {
        if m.get(r).copied().unwrap_or(0) < n {
            return Some(format!("row {r} occurs {n}x in the result but {}x in the unlimited one", m.get(r).copied().unwrap_or(0)));
        }
    }
    None
}

/// Is the concatenation of batches ordered as requested?
pub fn check_order(batches: &[RecordBatch], order: &[(usize, bool, bool)]) -> Option<String> {
    let b0 = batches.first()?;
    let fields: Vec<SortField> = order
        .iter()
        .map(|(c, d, nf)| SortField::new_with_options(b0.column(*c).data_type().clone(), SortOptions { descending: *d, nulls_first: *nf }))
        .collect();
    let conv = RowConverter::new(fields).ok()?;
    let mut prev: Option<Vec<u8>> = None;
    for b in batches {
        let cols: Vec<_> = order.iter().map(|(c, _, _)| b.column(*c).clone()).collect();
        let rows = conv.convert_columns(&cols).ok()?;
        for r in rows.iter() {
            let cur = r.as_ref().to_vec();
            if let Some(p) = &prev {
                if *p > cur {
                    return Some("rows are not in the requested order".into());
                }
            }
            prev = Some(cur);
        }
    }
    None
}

/// Sort key sequence (used to compare ordered results with ties).
pub fn key_seq(batches: &[RecordBatch], order: &[(usize, bool, bool)]) -> Vec<Row> {
    let idx: Vec<usize> = order.iter().map(|o| o.0).collect();
    let p: Vec<RecordBatch> = batches.iter().map(|b| b.project(&idx).unwrap()).collect();
    rows_of(&p)
}

/// Compare a distributed result with the single-node one under the query's guarantees.
pub fn judge(q: &Query, exp: &[RecordBatch], got: &[RecordBatch], unlimited: Option<&[RecordBatch]>) -> Option<String> {
    let (e, g) = (rows_of(exp), rows_of(got));
    if !q.order.is_empty() {
        if let Some(d) = check_order(got, &q.order) {
            return Some(d);
        }
    }
    if q.loose.is_some() {
        if e.len() != g.len() {
            return Some(format!("expected {} rows, got {}", e.len(), g.len()));
        }
        if !q.order.is_empty() {
            let (a, b) = (key_seq(exp, &q.order), key_seq(got, &q.order));
            if a != b {
                return Some(format!("sort keys differ: expected {:?}.. got {:?}..", a.iter().take(5).collect::<Vec<_>>(), b.iter().take(5).collect::<Vec<_>>()));
            }
        }
        if let Some(u) = unlimited {
            return submultiset(&g, &rows_of(u));
        }
        return None;
    }
    diff(&e, &g)
}

//! Compositional SQL generator. Every relation has the columns (id,k,g,v,f), so pieces nest freely.
use crate::qcfg::pick;
use rand::Rng;
use rand::rngs::StdRng;

#[derive(Clone, Debug, Default)]
pub struct Weights {
    pub join: u32,
    pub semi: u32,
    pub union: u32,
    pub agg: u32,
    pub sort_limit: u32,
    pub window: u32,
    pub setop: u32,
    pub filter: u32,
    pub distinct: u32,
}
impl Weights {
    pub fn all() -> Self {
        Weights { join: 4, semi: 2, union: 3, agg: 4, sort_limit: 2, window: 2, setop: 1, filter: 3, distinct: 1 }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut StdRng,
    pub tables: Vec<String>,
    pub w: Weights,
    pub n: usize,
    pub joins: usize,
    pub feats: Vec<&'static str>,
}

pub struct Query {
    pub sql: String,
    /// expected order: (column index, desc, nulls_first)
    pub order: Vec<(usize, bool, bool)>,
    /// LIMIT/OFFSET at the top without a total order
    pub loose: Option<(usize, Option<usize>)>,
    /// same query without the LIMIT/OFFSET
    pub unlimited: Option<String>,
    pub feats: Vec<&'static str>,
}

const COLS: &str = "id, k, g, v, f";

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut StdRng, tables: Vec<String>, w: Weights) -> Self {
        Gen { r, tables, w, n: 0, joins: 0, feats: vec![] }
    }
    fn alias(&mut self) -> String {
        self.n += 1;
        format!("q{}", self.n)
    }
    fn pred(&mut self, a: &str) -> String {
        let p = |s: &str| if a.is_empty() { s.to_string() } else { format!("{a}.{s}") };
        match self.r.random_range(0..12) {
            0 => format!("{} % 3 = 1", p("id")),
            1 => format!("{} > {}", p("v"), self.r.random_range(-300..300)),
            2 => format!("{} IS NOT NULL", p("k")),
            3 => format!("{} IN ('a','cc','é')", p("g")),
            4 => format!("{} < {} OR {} IS NULL", p("k"), self.r.random_range(0..20), p("f")),
            5 => format!("{} BETWEEN -20 AND 60", p("f")),
            6 => format!("{} LIKE '%a%'", p("g")),
            7 => format!("{} <> {}", p("v"), p("k")),
            8 => format!("NOT ({} > 0)", p("v")),
            9 => format!("{} > 100000000", p("v")),
            10 => format!("coalesce({}, 'x') <> 'a'", p("g")),
            _ => format!("{} % 2 = 0", p("k")),
        }
    }
    fn base(&mut self) -> String {
        let t = pick(self.r, &self.tables);
        match self.r.random_range(0..8) {
            0 => format!("SELECT id, k, g, v, f FROM {t} WHERE b"),
            1 => format!("SELECT id, k, g, v, CAST(CAST(m AS BIGINT) AS DOUBLE) AS f FROM {t}"),
            2 => format!("SELECT id, CAST(date_part('day', d) AS INT) AS k, g, v, f FROM {t}"),
            3 => {
                let p = self.pred("");
                format!("SELECT {COLS} FROM {t} WHERE {p}")
            }
            _ => format!("SELECT {COLS} FROM {t}"),
        }
    }
    /// A relation as a SELECT producing exactly (id,k,g,v,f).
    pub fn rel(&mut self, depth: u32) -> String {
        if depth == 0 {
            return self.base();
        }
        let w = self.w.clone();
        let opts: Vec<(u32, u8)> = vec![
            (2, 0),
            (w.filter, 1),
            (w.agg, 2),
            (if self.joins < 3 { w.join } else { 0 }, 3),
            (if self.joins < 3 { w.semi } else { 0 }, 4),
            (w.union, 5),
            (w.sort_limit, 6),
            (w.window, 7),
            (w.setop, 8),
            (w.distinct, 9),
        ];
        let total: u32 = opts.iter().map(|o| o.0).sum();
        let mut x = self.r.random_range(0..total);
        let mut op = 0;
        for (wt, o) in opts {
            if x < wt {
                op = o;
                break;
            }
            x -= wt;
        }
        let d = depth - 1;
        match op {
            0 => self.base(),
            1 => {
                self.feats.push("filter");
                let a = self.alias();
                let p = self.pred(&a);
                let s = self.rel(d);
                match self.r.random_range(0..2) {
                    0 => format!("SELECT {COLS} FROM ({s}) {a} WHERE {p}"),
                    _ => format!("SELECT id, k, g, (v + 1) % 1000 AS v, f * 0.5 AS f FROM ({s}) {a} WHERE {p}"),
                }
            }
            2 => {
                self.feats.push("agg");
                let s = self.rel(d);
                let a = self.alias();
                match self.r.random_range(0..7) {
                    0 => format!("SELECT min(id) AS id, k, g, sum(v) % 1000 AS v, max(f) AS f FROM ({s}) {a} GROUP BY k, g"),
                    1 => format!("SELECT max(id) AS id, k, min(g) AS g, count(*) AS v, round(avg(f)) AS f FROM ({s}) {a} GROUP BY k"),
                    2 => format!("SELECT count(DISTINCT id) AS id, CAST(count(DISTINCT k) AS INT) AS k, g, sum(v) % 1000 AS v, min(f) AS f FROM ({s}) {a} GROUP BY g HAVING count(*) > 1"),
                    3 => format!("SELECT max(id) AS id, CAST(count(k) AS INT) AS k, max(g) AS g, sum(v) AS v, sum(f) AS f FROM ({s}) {a}"),
                    4 => format!("SELECT min(id) AS id, k, g, sum(v) % 1000 AS v, max(f) AS f FROM ({s}) {a} GROUP BY GROUPING SETS ((k), (g), (k, g), ())"),
                    5 => format!("SELECT min(id) AS id, k, g, count(v) AS v, sum(f) FILTER (WHERE v > 0) AS f FROM ({s}) {a} GROUP BY ROLLUP (k, g)"),
                    _ => format!("SELECT id % 10 AS id, CAST(bit_and(k) AS INT) AS k, string_agg(g, ',' ORDER BY id, g, v) AS g, median(v) AS v, max(f) - min(f) AS f FROM ({s}) {a} GROUP BY id % 10"),
                }
            }
            3 => {
                self.joins += 1;
                let l = self.rel(d);
                let dr = d.min(self.r.random_range(0..=d));
                let rr = self.rel(dr);
                let (a, b) = (self.alias(), self.alias());
                let jt = pick(self.r, &["JOIN", "JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS"]);
                // DataFusion takes what is constant in one side of an outer join for constant in its
                // output too, and elides sort keys: the reference would be wrong.
                let consts = |s: &str| s.contains("AS k, max(g) AS g") || s.contains("CROSS JOIN") || s.contains("CAST(NULL");
                let jt = if jt != "CROSS" && (consts(&l) || consts(&rr)) { "JOIN" } else { jt };
                self.feats.push(match jt {
                    "JOIN" => "inner",
                    "LEFT JOIN" => "left",
                    "RIGHT JOIN" => "right",
                    "FULL JOIN" => "full",
                    _ => "cross",
                });
                if jt == "CROSS" {
                    return format!("SELECT {a}.id * 7 + {b}.c AS id, {a}.k, {a}.g, {a}.v, {b}.f FROM ({l}) {a} CROSS JOIN (SELECT count(*) AS c, max(f) AS f, CAST(min(k) AS BIGINT) AS mk FROM ({rr}) z) {b}");
                }
                let on = match self.r.random_range(0..8) {
                    0 | 1 => format!("{a}.k = {b}.k AND {a}.g = {b}.g"),
                    2 => format!("{a}.id = {b}.id"),
                    3 => format!("{a}.k = {b}.k AND {a}.v < {b}.v"),
                    4 => format!("{a}.id % 50 = {b}.id % 50 AND {a}.g = {b}.g"),
                    5 if jt != "FULL JOIN" => format!("{a}.v > {b}.v + 700"),
                    6 => format!("{a}.v = {b}.v"),
                    _ => format!("{a}.k = {b}.k AND {b}.id % 7 = 1"),
                };
                format!("SELECT coalesce({a}.id, 0) + 3 * coalesce({b}.id, 0) AS id, coalesce({a}.k, {b}.k) AS k, {b}.g, {a}.v, {b}.f FROM ({l}) {a} {jt} ({rr}) {b} ON {on}")
            }
            4 => {
                self.joins += 1;
                let l = self.rel(d);
                let dr = d.min(self.r.random_range(0..=d));
                let rr = self.rel(dr);
                let (a, b) = (self.alias(), self.alias());
                let k = self.r.random_range(0..8);
                self.feats.push(["in", "notin", "exists", "notexists", "leftsemi", "leftanti", "scalar", "inor"][k]);
                match k {
                    0 => format!("SELECT {COLS} FROM ({l}) {a} WHERE {a}.k IN (SELECT {b}.k FROM ({rr}) {b})"),
                    1 => format!("SELECT {COLS} FROM ({l}) {a} WHERE {a}.v NOT IN (SELECT {b}.v FROM ({rr}) {b} WHERE {b}.v IS NOT NULL)"),
                    2 => format!("SELECT {COLS} FROM ({l}) {a} WHERE EXISTS (SELECT 1 FROM ({rr}) {b} WHERE {b}.k = {a}.k AND {b}.v > {a}.v)"),
                    3 => format!("SELECT {COLS} FROM ({l}) {a} WHERE NOT EXISTS (SELECT 1 FROM ({rr}) {b} WHERE {b}.k = {a}.k)"),
                    4 => format!("SELECT {a}.id, {a}.k, {a}.g, {a}.v, {a}.f FROM ({l}) {a} LEFT SEMI JOIN ({rr}) {b} ON {a}.g = {b}.g"),
                    5 => format!("SELECT {a}.id, {a}.k, {a}.g, {a}.v, {a}.f FROM ({l}) {a} LEFT ANTI JOIN ({rr}) {b} ON {a}.k = {b}.k AND {a}.g = {b}.g"),
                    6 => format!("SELECT id, k, g, v - (SELECT coalesce(max({b}.v), 0) FROM ({rr}) {b}) AS v, f FROM ({l}) {a}"),
                    _ => format!("SELECT {COLS} FROM ({l}) {a} WHERE {a}.k IN (SELECT {b}.k FROM ({rr}) {b}) OR {a}.v < 0"),
                }
            }
            5 => {
                self.feats.push("union");
                let n = self.r.random_range(2..5);
                let parts: Vec<String> = (0..n)
                    .map(|_| {
                        let dd = d.min(self.r.random_range(0..=d));
                        let s = self.rel(dd);
                        let a = self.alias();
                        format!("SELECT {COLS} FROM ({s}) {a}")
                    })
                    .collect();
                let op = if self.r.random_bool(0.85) { " UNION ALL " } else { " UNION " };
                parts.join(op)
            }
            6 => {
                self.feats.push("limit");
                let s = self.rel(d);
                let a = self.alias();
                let lim = self.r.random_range(0..60);
                let off = if self.r.random_bool(0.3) { format!(" OFFSET {}", self.r.random_range(0..20)) } else { String::new() };
                let dir = pick(self.r, &["", " DESC"]);
                let ord = match self.r.random_range(0..3) {
                    0 => format!("id{dir}, k, g, v, f"),
                    1 => format!("v{dir} NULLS FIRST, id, k, g, f"),
                    _ => format!("g, f{dir}, id, k, v"),
                };
                format!("SELECT {COLS} FROM (SELECT {COLS} FROM ({s}) {a} ORDER BY {ord} LIMIT {lim}{off}) {a}x")
            }
            7 => {
                self.feats.push("window");
                let s = self.rel(d);
                let a = self.alias();
                match self.r.random_range(0..4) {
                    0 => format!("SELECT id, k, g, CAST(row_number() OVER (PARTITION BY k ORDER BY id, g, v, f) AS BIGINT) AS v, f FROM ({s}) {a}"),
                    1 => format!("SELECT id, k, g, sum(v) OVER (PARTITION BY g ORDER BY id, k, v, f ROWS BETWEEN 2 PRECEDING AND CURRENT ROW) AS v, f FROM ({s}) {a}"),
                    2 => format!("SELECT id, k, g, sum(v) OVER () % 1000 AS v, max(f) OVER (PARTITION BY k) AS f FROM ({s}) {a}"),
                    _ => format!("SELECT id, k, g, v, lag(f, 1) OVER (ORDER BY id, k, g, v, f) AS f FROM ({s}) {a}"),
                }
            }
            8 => {
                let l = self.rel(d);
                let dr = d.min(self.r.random_range(0..=d));
                let rr = self.rel(dr);
                let (a, b) = (self.alias(), self.alias());
                let k = self.r.random_range(0..2);
                self.feats.push(["intersect", "except"][k]);
                let op = ["INTERSECT", "EXCEPT"][k];
                format!("SELECT min(id) AS id, k, g, min(v) AS v, min(f) AS f FROM (SELECT id, k, g, v, f FROM ({l}) {a} {op} SELECT id, k, g, v, f FROM ({rr}) {b}) {a}s GROUP BY k, g")
            }
            _ => {
                self.feats.push("distinct");
                let s = self.rel(d);
                let a = self.alias();
                format!("SELECT DISTINCT id % 20 AS id, k, g, CAST(NULL AS BIGINT) AS v, f FROM ({s}) {a}")
            }
        }
    }

    pub fn query(&mut self, depth: u32) -> Query {
        let rel = self.rel(depth);
        let a = self.alias();
        let core = match self.r.random_range(0..6) {
            0 => format!("SELECT k, count(*) AS c, sum(v) AS s, min(id) AS mi FROM ({rel}) {a} GROUP BY k"),
            1 => format!("SELECT count(*) AS c, sum(v) AS s, min(g) AS mi, max(f) AS mf FROM ({rel}) {a}"),
            _ => format!("SELECT {COLS} FROM ({rel}) {a}"),
        };
        let ncols = if core.starts_with("SELECT k, count") || core.starts_with("SELECT count") { 4 } else { 5 };
        let mut order = vec![];
        let mut sql = core.clone();
        if self.r.random_bool(0.45) {
            self.feats.push("orderby");
            let total = self.r.random_bool(0.5);
            let mut cols: Vec<usize> = (0..ncols).collect();
            for i in (1..cols.len()).rev() {
                let j = self.r.random_range(0..=i);
                cols.swap(i, j);
            }
            let n = if total { ncols } else { self.r.random_range(1..=2) };
            let mut parts = vec![];
            for c in cols.into_iter().take(n) {
                let desc = self.r.random_bool(0.4);
                let nf = self.r.random_bool(0.5);
                order.push((c, desc, nf));
                parts.push(format!("{}{} NULLS {}", c + 1, if desc { " DESC" } else { " ASC" }, if nf { "FIRST" } else { "LAST" }));
            }
            sql = format!("{sql} ORDER BY {}", parts.join(", "));
        }
        let mut loose = None;
        let mut unlimited = None;
        if self.r.random_bool(0.35) {
            self.feats.push("toplimit");
            unlimited = Some(sql.clone());
            let lim = self.r.random_range(0..40);
            let off = if self.r.random_bool(0.3) { self.r.random_range(0..15) } else { 0 };
            sql = format!("{sql} LIMIT {lim}");
            if off > 0 {
                sql = format!("{sql} OFFSET {off}");
            }
            if order.len() < ncols {
                loose = Some((off, Some(lim)));
            }
        }
        let mut feats = self.feats.clone();
        feats.sort();
        feats.dedup();
        Query { sql, order, loose, unlimited, feats }
    }
}

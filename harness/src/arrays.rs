//! Random Arrow data of every type, with awkward layouts (slices with offsets, unused dictionary
//! values, null dictionary values, non-inlined views, empty lists under nulls).
use crate::qcfg::pick;
use arrow::array::*;
use arrow::buffer::{NullBuffer, OffsetBuffer, ScalarBuffer};
use arrow::datatypes::*;
#[allow(non_camel_case_types)]
type f16 = <Float16Type as ArrowPrimitiveType>::Native;
use rand::Rng;
use rand::rngs::StdRng;
use std::collections::HashMap;
use std::sync::Arc;

fn leaf_type(r: &mut StdRng) -> DataType {
    use DataType::*;
    let tu = pick(r, &[TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond]);
    let v = [
        Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Float16, Float32, Float64,
        Utf8, Utf8, LargeUtf8, Utf8View, Utf8View, Binary, LargeBinary, BinaryView,
        FixedSizeBinary(r.random_range(1..20)),
        Date32, Date64, Time32(pick(r, &[TimeUnit::Second, TimeUnit::Millisecond])), Time64(pick(r, &[TimeUnit::Microsecond, TimeUnit::Nanosecond])),
        Timestamp(tu, None), Timestamp(tu, Some(pick(r, &["UTC", "+02:00", "America/New_York"]).into())), Duration(tu),
        Interval(pick(r, &[IntervalUnit::YearMonth, IntervalUnit::DayTime, IntervalUnit::MonthDayNano])),
        Decimal32(9, 2), Decimal64(18, -2), Decimal128(38, 10), Decimal256(76, 20),
    ];
    let i = r.random_range(0..v.len());
    v[i].clone()
}

/// Arrow's IPC writer mangles unions and run-end encoded values below the items of a sliced list.
fn item_type(r: &mut StdRng, depth: u32) -> DataType {
    fn odd(t: &DataType) -> bool {
        match t {
            DataType::Union(_, _) | DataType::RunEndEncoded(_, _) => true,
            DataType::List(f) | DataType::LargeList(f) | DataType::FixedSizeList(f, _) | DataType::Map(f, _) => odd(f.data_type()),
            DataType::Struct(f) => f.iter().any(|f| odd(f.data_type())),
            _ => false,
        }
    }
    loop {
        let t = random_type(r, depth);
        if !odd(&t) {
            return t;
        }
    }
}

pub fn random_type(r: &mut StdRng, depth: u32) -> DataType {
    use DataType::*;
    if depth == 0 || r.random_bool(0.5) {
        return leaf_type(r);
    }
    match r.random_range(0..10) {
        0..=2 => {
            let k = pick(r, &[Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64]);
            let v = pick(r, &[Utf8, Utf8, LargeUtf8, Binary, Int64, Float64, Utf8View, Decimal128(20, 3)]);
            Dictionary(Box::new(k), Box::new(v))
        }
        3 => List(Arc::new(Field::new("item", item_type(r, depth - 1), true))),
        4 => LargeList(Arc::new(Field::new("element", item_type(r, depth - 1), true))),
        5 => FixedSizeList(Arc::new(Field::new("item", random_type(r, depth - 1), true)), r.random_range(1..4)),
        6 => {
            let n = r.random_range(1..4);
            Struct((0..n).map(|i| {
                let t = random_type(r, depth - 1);
                let null = r.random_bool(0.8) || matches!(t, Null | Union(_, _) | RunEndEncoded(_, _) | Dictionary(_, _));
                Field::new(format!("s{i}"), t, null)
            }).collect())
        }
        7 => {
            let v = item_type(r, depth - 1);
            Map(Arc::new(Field::new("entries", Struct(vec![Field::new("keys", Utf8, false), Field::new("values", v, true)].into()), false)), false)
        }
        8 => {
            let n = r.random_range(1..4i8);
            let f: UnionFields = (0..n).map(|i| (i * 3, Arc::new(Field::new(format!("u{i}"), leaf_type(r), true)))).collect();
            Union(f, pick(r, &[UnionMode::Sparse, UnionMode::Dense]))
        }
        _ => RunEndEncoded(
            Arc::new(Field::new("run_ends", pick(r, &[Int16, Int32, Int64]), false)),
            Arc::new(Field::new("values", pick(r, &[Utf8, Int64, Float64, Boolean]), true)),
        ),
    }
}

pub fn exotic_schema(r: &mut StdRng) -> SchemaRef {
    let mut f = vec![Field::new("id", DataType::Int64, false)];
    for i in 0..r.random_range(1..6) {
        let mut x = Field::new(format!("c{i}"), random_type(r, 2), true);
        if !matches!(x.data_type(), DataType::Null | DataType::Union(_, _) | DataType::RunEndEncoded(_, _)) && r.random_bool(0.3) {
            x = x.with_nullable(false);
        }
        if r.random_bool(0.3) {
            x = x.with_metadata(HashMap::from([("unit".to_string(), "mm".to_string()), ("é".to_string(), "".to_string())]));
        }
        f.push(x);
    }
    let mut s = Schema::new(f);
    if r.random_bool(0.3) {
        s = s.with_metadata(HashMap::from([("owner".to_string(), "me".to_string())]));
    }
    Arc::new(s)
}

fn nulls(r: &mut StdRng, n: usize, nullable: bool) -> Option<NullBuffer> {
    if !nullable || r.random_bool(0.25) {
        return None;
    }
    let p = pick(r, &[0.1, 0.5, 1.0]);
    Some(NullBuffer::from_iter((0..n).map(|_| !r.random_bool(p))))
}

fn s(r: &mut StdRng) -> String {
    match r.random_range(0..8) {
        0 => String::new(),
        1 => "é😀\u{0}".into(),
        2 => "a string that is far too long to be inlined in a view".into(),
        3 => "x".repeat(r.random_range(12..14)),
        4 => "y".repeat(r.random_range(1..2000)),
        _ => format!("v{}", r.random_range(0..50)),
    }
}

fn prim<T: ArrowPrimitiveType>(n: usize, nb: Option<NullBuffer>, mut f: impl FnMut() -> T::Native) -> PrimitiveArray<T> {
    PrimitiveArray::<T>::new((0..n).map(|_| f()).collect::<Vec<_>>().into(), nb)
}


fn ival(r: &mut StdRng) -> i64 {
    match r.random_range(0..6) {
        0 => 0,
        1 => i64::MAX,
        2 => i64::MIN,
        3 => -1,
        _ => r.random_range(-100000..100000),
    }
}

pub fn gen_array(r: &mut StdRng, dt: &DataType, n: usize, nullable: bool) -> ArrayRef {
    use DataType::*;
    let nb = nulls(r, n, nullable);
    macro_rules! p {
        ($t:ty, $f:expr) => {{
            #[allow(clippy::redundant_closure_call)]
            let a: PrimitiveArray<$t> = prim::<$t>(n, nb, || ($f)(r));
            Arc::new(a.with_data_type(dt.clone())) as ArrayRef
        }};
    }
    match dt {
        Null => Arc::new(NullArray::new(n)),
        Boolean => Arc::new(BooleanArray::new((0..n).map(|_| r.random_bool(0.5)).collect::<Vec<_>>().into(), nb)),
        Int8 => p!(Int8Type, |r: &mut StdRng| ival(r) as i8),
        Int16 => p!(Int16Type, |r: &mut StdRng| ival(r) as i16),
        Int32 => p!(Int32Type, |r: &mut StdRng| ival(r) as i32),
        Int64 => p!(Int64Type, |r: &mut StdRng| ival(r)),
        UInt8 => p!(UInt8Type, |r: &mut StdRng| ival(r) as u8),
        UInt16 => p!(UInt16Type, |r: &mut StdRng| ival(r) as u16),
        UInt32 => p!(UInt32Type, |r: &mut StdRng| ival(r) as u32),
        UInt64 => p!(UInt64Type, |r: &mut StdRng| ival(r) as u64),
        Float16 => p!(Float16Type, |r: &mut StdRng| f16::from_bits(r.random())),
        Float32 => p!(Float32Type, |r: &mut StdRng| pick(r, &[0.0f32, -0.0, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, 1.5, f32::from_bits(0x7fc00001), -f32::NAN])),
        Float64 => p!(Float64Type, |r: &mut StdRng| pick(r, &[0.0f64, -0.0, f64::NAN, f64::NEG_INFINITY, f64::MAX, 0.1, f64::from_bits(0x7ff8000000000002), -f64::NAN])),
        Date32 => p!(Date32Type, |r: &mut StdRng| ival(r) as i32),
        Date64 => p!(Date64Type, |r: &mut StdRng| ival(r)),
        Time32(TimeUnit::Second) => p!(Time32SecondType, |r: &mut StdRng| r.random_range(0..86400)),
        Time32(_) => p!(Time32MillisecondType, |r: &mut StdRng| r.random_range(0..86400000)),
        Time64(TimeUnit::Microsecond) => p!(Time64MicrosecondType, |r: &mut StdRng| r.random_range(0..86400000000)),
        Time64(_) => p!(Time64NanosecondType, |r: &mut StdRng| r.random_range(0..86400000000000)),
        Timestamp(TimeUnit::Second, _) => p!(TimestampSecondType, |r: &mut StdRng| ival(r)),
        Timestamp(TimeUnit::Millisecond, _) => p!(TimestampMillisecondType, |r: &mut StdRng| ival(r)),
        Timestamp(TimeUnit::Microsecond, _) => p!(TimestampMicrosecondType, |r: &mut StdRng| ival(r)),
        Timestamp(TimeUnit::Nanosecond, _) => p!(TimestampNanosecondType, |r: &mut StdRng| ival(r)),
        Duration(TimeUnit::Second) => p!(DurationSecondType, |r: &mut StdRng| ival(r)),
        Duration(TimeUnit::Millisecond) => p!(DurationMillisecondType, |r: &mut StdRng| ival(r)),
        Duration(TimeUnit::Microsecond) => p!(DurationMicrosecondType, |r: &mut StdRng| ival(r)),
        Duration(TimeUnit::Nanosecond) => p!(DurationNanosecondType, |r: &mut StdRng| ival(r)),
        Interval(IntervalUnit::YearMonth) => p!(IntervalYearMonthType, |r: &mut StdRng| ival(r) as i32),
        Interval(IntervalUnit::DayTime) => p!(IntervalDayTimeType, |r: &mut StdRng| arrow::datatypes::IntervalDayTime::new(ival(r) as i32, ival(r) as i32)),
        Interval(IntervalUnit::MonthDayNano) => p!(IntervalMonthDayNanoType, |r: &mut StdRng| arrow::datatypes::IntervalMonthDayNano::new(ival(r) as i32, ival(r) as i32, ival(r))),
        Decimal32(_, _) => p!(Decimal32Type, |r: &mut StdRng| r.random_range(-999999999..=999999999)),
        Decimal64(_, _) => p!(Decimal64Type, |r: &mut StdRng| r.random_range(-999999999999999999..=999999999999999999)),
        Decimal128(_, _) => p!(Decimal128Type, |r: &mut StdRng| ival(r) as i128 * 1000),
        Decimal256(_, _) => p!(Decimal256Type, |r: &mut StdRng| arrow::datatypes::i256::from_i128(ival(r) as i128 * 100000)),
        Utf8 => Arc::new(StringArray::from_iter((0..n).map(|i| nb.as_ref().is_none_or(|b| b.is_valid(i)).then(|| s(r))))),
        LargeUtf8 => Arc::new(LargeStringArray::from_iter((0..n).map(|i| nb.as_ref().is_none_or(|b| b.is_valid(i)).then(|| s(r))))),
        Utf8View => Arc::new(StringViewArray::from_iter((0..n).map(|i| nb.as_ref().is_none_or(|b| b.is_valid(i)).then(|| s(r))))),
        Binary => Arc::new(BinaryArray::from_iter((0..n).map(|i| nb.as_ref().is_none_or(|b| b.is_valid(i)).then(|| s(r).into_bytes())))),
        LargeBinary => Arc::new(LargeBinaryArray::from_iter((0..n).map(|i| nb.as_ref().is_none_or(|b| b.is_valid(i)).then(|| s(r).into_bytes())))),
        BinaryView => Arc::new(BinaryViewArray::from_iter((0..n).map(|i| nb.as_ref().is_none_or(|b| b.is_valid(i)).then(|| s(r).into_bytes())))),
        FixedSizeBinary(w) => {
            let w = *w as usize;
            let v: Vec<u8> = (0..n * w).map(|_| r.random()).collect();
            Arc::new(FixedSizeBinaryArray::new(w as i32, v.into(), nb))
        }
        Dictionary(k, v) => {
            let nv = r.random_range(1..12usize);
            let vn = nullable && r.random_bool(0.3);
            let vals = gen_array(r, v, nv, vn);
            macro_rules! d {
                ($t:ty) => {{
                    let keys: PrimitiveArray<$t> = prim::<$t>(n, nb, || r.random_range(0..nv) as <$t as ArrowPrimitiveType>::Native);
                    Arc::new(DictionaryArray::<$t>::new(keys, vals)) as ArrayRef
                }};
            }
            match k.as_ref() {
                Int8 => d!(Int8Type),
                Int16 => d!(Int16Type),
                Int32 => d!(Int32Type),
                Int64 => d!(Int64Type),
                UInt8 => d!(UInt8Type),
                UInt16 => d!(UInt16Type),
                UInt32 => d!(UInt32Type),
                _ => d!(UInt64Type),
            }
        }
        List(f) => {
            let lens: Vec<usize> = (0..n).map(|_| r.random_range(0..4)).collect();
            let c = gen_array(r, f.data_type(), lens.iter().sum(), f.is_nullable());
            Arc::new(ListArray::new(Arc::clone(f), OffsetBuffer::from_lengths(lens), c, nb))
        }
        LargeList(f) => {
            let lens: Vec<usize> = (0..n).map(|_| r.random_range(0..4)).collect();
            let c = gen_array(r, f.data_type(), lens.iter().sum(), f.is_nullable());
            Arc::new(LargeListArray::new(Arc::clone(f), OffsetBuffer::from_lengths(lens), c, nb))
        }
        FixedSizeList(f, w) => {
            let c = gen_array(r, f.data_type(), n * *w as usize, f.is_nullable());
            Arc::new(FixedSizeListArray::new(Arc::clone(f), *w, c, nb))
        }
        Struct(fs) => {
            let cols = fs.iter().map(|f| gen_array(r, f.data_type(), n, f.is_nullable())).collect();
            Arc::new(StructArray::try_new_with_length(fs.clone(), cols, nb, n).unwrap())
        }
        Map(f, sorted) => {
            let lens: Vec<usize> = (0..n).map(|_| r.random_range(0..3)).collect();
            let e = gen_array(r, f.data_type(), lens.iter().sum(), false);
            // entries themselves hold no nulls
            let e = e.as_struct();
            let e = StructArray::new(e.fields().clone(), e.columns().to_vec(), None);
            Arc::new(MapArray::new(Arc::clone(f), OffsetBuffer::from_lengths(lens), e, nb, *sorted))
        }
        Union(fs, mode) => {
            let tids: Vec<i8> = fs.iter().map(|x| x.0).collect();
            let ids: Vec<i8> = (0..n).map(|_| tids[r.random_range(0..tids.len())]).collect();
            let (offs, lens): (Option<ScalarBuffer<i32>>, Vec<usize>) = match mode {
                UnionMode::Sparse => (None, tids.iter().map(|_| n).collect()),
                UnionMode::Dense => {
                    let mut cnt: HashMap<i8, i32> = HashMap::new();
                    let o: Vec<i32> = ids
                        .iter()
                        .map(|t| {
                            let c = cnt.entry(*t).or_default();
                            *c += 1;
                            *c - 1
                        })
                        .collect();
                    (Some(o.into()), tids.iter().map(|t| cnt.get(t).copied().unwrap_or(0) as usize).collect())
                }
            };
            let ch = fs.iter().zip(lens).map(|((_, f), l)| gen_array(r, f.data_type(), l, true)).collect();
            Arc::new(UnionArray::try_new(fs.clone(), ids.into(), offs, ch).unwrap())
        }
        RunEndEncoded(e, v) => {
            let mut ends = vec![];
            let mut at = 0usize;
            while at < n {
                at = (at + r.random_range(1..5)).min(n);
                ends.push(at);
            }
            let vals = gen_array(r, v.data_type(), ends.len(), true);
            macro_rules! re {
                ($t:ty) => {{
                    let e = PrimitiveArray::<$t>::from_iter_values(ends.iter().map(|x| *x as <$t as ArrowPrimitiveType>::Native));
                    Arc::new(RunArray::<$t>::try_new(&e, &vals).unwrap()) as ArrayRef
                }};
            }
            match e.data_type() {
                Int16 => re!(Int16Type),
                Int32 => re!(Int32Type),
                _ => re!(Int64Type),
            }
        }
        t => panic!("no generator for {t}"),
    }
}

pub fn exotic_batch(r: &mut StdRng, schema: &SchemaRef, base: i64, n: usize) -> RecordBatch {
    let (pre, post) = if r.random_bool(0.5) { (r.random_range(0..9), r.random_range(0..5)) } else { (0, 0) };
    let total = pre + n + post;
    let mut cols: Vec<ArrayRef> = vec![Arc::new(Int64Array::from_iter_values((0..total as i64).map(|i| base + i - pre as i64)))];
    for f in schema.fields().iter().skip(1) {
        cols.push(gen_array(r, f.data_type(), total, f.is_nullable()));
    }
    let b = RecordBatch::try_new(Arc::clone(schema), cols).unwrap();
    b.slice(pre, n)
}

pub fn type_name(t: &DataType) -> String {
    use DataType::*;
    match t {
        Dictionary(k, v) => format!("Dictionary({k},{v})"),
        List(f) => format!("List<{}>", type_name(f.data_type())),
        LargeList(f) => format!("LargeList<{}>", type_name(f.data_type())),
        FixedSizeList(f, _) => format!("FixedSizeList<{}>", type_name(f.data_type())),
        Struct(_) => "Struct".into(),
        Map(_, _) => "Map".into(),
        Union(_, m) => format!("Union {m:?}"),
        RunEndEncoded(_, _) => "RunEndEncoded".into(),
        Timestamp(u, tz) => format!("Timestamp({u:?},{})", tz.is_some()),
        FixedSizeBinary(_) => "FixedSizeBinary".into(),
        t => t.to_string(),
    }
}

/// Types whose hash DataFusion computes.
pub fn hash_ok(t: &DataType) -> bool {
    use DataType::*;
    match t {
        Null | Duration(_) | Interval(_) | Map(_, _) | Union(_, _) | RunEndEncoded(_, _) | Struct(_) | List(_) | LargeList(_) | FixedSizeList(_, _) | FixedSizeBinary(_) => false,
        Float16 | Decimal32(_, _) | Decimal64(_, _) => false,
        // values with several bit patterns display alike
        Float32 | Float64 => false,
        Date32 | Date64 | Timestamp(_, _) => false,
        Dictionary(_, v) => !matches!(v.as_ref(), Float64),
        _ => true,
    }
}
/// Types Arrow can gather rows of.
pub fn take_ok(_t: &DataType) -> bool {
    true
}

/// Same logical value, bit for bit (nested values compared element by element).
pub fn same_cell(a: &ArrayRef, b: &ArrayRef) -> bool {
    if a.data_type() != b.data_type() {
        return false;
    }
    a.to_data() == b.to_data()
}

/// Whether Arrow Flight's own codec carries this batch faithfully (it does not for some types).
pub fn flight_ok(b: &RecordBatch, compression: u8) -> bool {
    use arrow_flight::decode::FlightRecordBatchStream;
    use arrow_flight::encode::{DictionaryHandling, FlightDataEncoderBuilder};
    use datafusion_distributed::CompressionType;
    use futures::{FutureExt, StreamExt};
    let c = match compression {
        0 => None,
        1 => Some(CompressionType::LZ4_FRAME),
        _ => Some(CompressionType::ZSTD),
    };
    let f = || -> bool {
        let Ok(o) = arrow_flight_options(c) else { return false };
        let enc = FlightDataEncoderBuilder::new()
            .with_options(o)
            .with_schema(b.schema())
            .with_dictionary_handling(DictionaryHandling::Resend)
            .with_max_flight_data_size(usize::MAX)
            .build(futures::stream::iter([Ok(b.clone())]));
        // Its schema message misdescribes some types; with the right one it must carry them.
        let Ok(o2) = arrow_flight_options(c) else { return false };
        let schema = arrow_flight::FlightData::from(arrow_flight::SchemaAsIpc::new(&b.schema(), &o2));
        let enc = futures::stream::iter([Ok(schema)]).chain(enc.skip(1));
        let mut dec = FlightRecordBatchStream::new_from_flight_data(enc);
        match dec.next().now_or_never() {
            Some(Some(Ok(o))) => o == *b && o.schema() == b.schema(),
            // nothing is emitted for a batch without rows
            Some(None) | None => b.num_rows() == 0,
            _ => false,
        }
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false)
}
fn arrow_flight_options(c: Option<datafusion_distributed::CompressionType>) -> Result<arrow::ipc::writer::IpcWriteOptions, arrow::error::ArrowError> {
    arrow::ipc::writer::IpcWriteOptions::default().try_with_compression(c)
}

/// How often Arrow Flight alone fails to carry a random column of each type (a development aid).
pub fn survey(n: u64) {
    use rand::SeedableRng;
    let mut t: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    for i in 0..n {
        let mut r = StdRng::seed_from_u64(i);
        let sc = exotic_schema(&mut r);
        let k = pick(&mut r, &[0, 1, 5, 30]);
        let b = exotic_batch(&mut r, &sc, 0, k);
        for c in 1..sc.fields().len() {
            let p = b.project(&[0, c]).unwrap();
            let e = t.entry(type_name(sc.field(c).data_type())).or_default();
            e.0 += 1;
            for comp in 0..3 {
                if !flight_ok(&p, comp) {
                    e.1 += 1;
                    break;
                }
            }
        }
    }
    for (k, (a, b)) in t {
        if b > 0 {
            println!("{k}: {b}/{a}");
        }
    }
}

//! A user's number with field functions of its own: as a field it is taken from any integer type and from the two boolean
//! headers, every other type is refused with an error of the user's, and it is written in the smallest type that holds it,
//! zero not at all. Whatever stands between it and the field leaves all of that to it.
use super::*;
use compact_thrift_runtime::{thrift, CompactThriftInputSlice};

thread_local! {
    /// calls of the user's functions: as a field, as a value
    static MADE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
fn made(field: usize, value: usize) {
    MADE.with(|m| m.set((m.get().0 + field, m.get().1 + value)));
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Number(i64);
impl<'i> CompactThriftProtocol<'i> for Number {
    const FIELD_TYPE: u8 = 6;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        made(0, 1);
        self.0 = input.read_i64()?;
        Ok(())
    }
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        made(1, 0);
        self.0 = match field_type {
            1 => 1,
            2 => 0,
            3 => input.read_byte()? as i8 as i64,
            4 => input.read_i16()? as i64,
            5 => input.read_i32()? as i64,
            6 => input.read_i64()?,
            _ => return Err(ThriftError::MissingStop),
        };
        Ok(())
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        made(0, 1);
        output.write_i64(self.0)
    }
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
        made(1, 0);
        match smallest(self.0) {
            0 => Ok(()),
            1 => true.write_thrift_field(output, field_id, last_field_id),
            3 => (self.0 as i8).write_thrift_field(output, field_id, last_field_id),
            4 => (self.0 as i16).write_thrift_field(output, field_id, last_field_id),
            5 => (self.0 as i32).write_thrift_field(output, field_id, last_field_id),
            _ => self.0.write_thrift_field(output, field_id, last_field_id),
        }
    }
}
fn smallest(v: i64) -> u8 {
    match v {
        0 => 0,
        1 => 1,
        _ if v as i8 as i64 == v => 3,
        _ if v as i16 as i64 == v => 4,
        _ if v as i32 as i64 == v => 5,
        _ => 6,
    }
}

type Deep = Box<Arc<Rc<Number>>>;
thrift! {
    struct Row {
        1: required Number a;
        2: optional Number b;
        20: optional Box<Number> c;
        19: required Rc<Number> d;
        21: optional Arc<Number> e;
        300: optional Deep f
    }
    union Any { 1: Number a; 2: Box<Number> b; 40: Arc<Number> c; 3: Deep d; 4: Rc<Number> e }
    struct Table { 1: required list<Row> rows; 2: optional Any any; 3: required Box<Row> last; 4: optional list<Number> plain }
}
const ROW: [(i16, bool); 6] = [(1, true), (2, false), (20, false), (19, true), (21, false), (300, false)];
const ANY: [i16; 5] = [1, 2, 40, 3, 4];
const VALUES: [i64; 17] = [0, 1, -1, 2, 63, 64, 127, -128, 128, -129, 32767, -32768, 32768, 2147483647, -2147483649, i64::MAX, i64::MIN];

fn header(o: &mut Vec<u8>, last: &mut i16, id: i16, t: u8, long: bool) {
    match id - *last {
        d @ 1..=15 if !long => o.push((d as u8) << 4 | t),
        _ => {
            o.push(t);
            varint(o, ((id << 1) ^ (id >> 15)) as u16 as u64);
        }
    }
    *last = id;
}
fn varint(o: &mut Vec<u8>, mut v: u64) {
    while v > 0x7F {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
/// What follows the header, if the type can hold the value.
fn content(t: u8, v: i64) -> Option<Vec<u8>> {
    let mut o = vec![];
    let fits = match t {
        1 => v == 1,
        2 => v == 0,
        3 => v as i8 as i64 == v,
        4 => v as i16 as i64 == v,
        5 => v as i32 as i64 == v,
        _ => true,
    };
    match t {
        1 | 2 => {}
        3 => o.push(v as u8),
        _ => varint(&mut o, ((v << 1) ^ (v >> 63)) as u64),
    }
    fits.then_some(o)
}
fn row(v: &[Option<i64>; 6]) -> Row {
    let n = |i: usize| v[i].map(Number);
    Row { a: n(0).unwrap_or_default(), b: n(1), c: n(2).map(Box::new), d: Rc::new(n(3).unwrap_or_default()), e: n(4).map(Arc::new), f: n(5).map(|x| Box::new(Arc::new(Rc::new(x)))) }
}
fn any(i: usize, v: i64) -> Any {
    let n = Number(v);
    match i {
        0 => Any::a(n),
        1 => Any::b(Box::new(n)),
        2 => Any::c(Arc::new(n)),
        3 => Any::d(Box::new(Arc::new(Rc::new(n)))),
        _ => Any::e(Rc::new(n)),
    }
}

/// Read from a slice and from a stream: the same outcome, and everything up to the refused header or the end is taken.
fn reads<B: for<'i> CompactThriftProtocol<'i> + Default + PartialEq + std::fmt::Debug>(c: &mut Ctx, b: &[u8], want: Result<&B, usize>, calls: (usize, usize)) {
    let mut b = b.to_vec();
    let len = b.len();
    b.push(0x15);
    for stream in [false, true] {
        MADE.with(|m| m.set((0, 0)));
        let mut left = 0;
        let r = mc::explore::guard(|| {
            if stream {
                let mut s = &b[..];
                let r = B::read_thrift(&mut s);
                left = s.len();
                r
            } else {
                let mut i = CompactThriftInputSlice::new(&b);
                let r = B::read_thrift(&mut i);
                left = i.as_slice().len();
                r
            }
        });
        let k = MADE.with(|m| m.get());
        let taken = b.len() - left;
        c.compared(1);
        let ok = match (&r, want) {
            (Ok(Ok(v)), Ok(w)) => v == w && taken == len && k == calls,
            (Ok(Err(ThriftError::MissingStop)), Err(at)) => taken == at && k == calls,
            _ => false,
        };
        c.check(ok, || format!("{} read from a {}: {r:?} with {k:?} calls, {taken} bytes taken; {want:?} with {calls:?} calls expected", hex(&b[..len]), if stream { "stream" } else { "slice" }));
    }
}

/// A row with one field of any type, the required fields and some of the others; where it stops being readable.
fn some_row(c: &mut Ctx, th: bool) -> (Vec<u8>, [Option<i64>; 6], Result<(), usize>, usize) {
    let at = c.choose(6);
    let t = 1 + c.choose(15) as u8;
    let vals: Vec<i64> = VALUES.iter().copied().filter(|v| content(t, *v).is_some()).collect();
    let v = vals[if t <= 6 { c.choose(vals.len()) } else { 0 }];
    let long = c.choose(2) == 1;
    let back = c.choose(2) == 1;
    // which of the other optional fields are there, and of which type
    let others = c.choose(if th { 16 } else { 3 });
    let others = if th { others } else { [0, 15, 5][others] };
    let other_type = 3 + c.choose(if th { 4 } else { 2 }) as u8 * if th { 1 } else { 3 };
    let mut o = vec![];
    let mut last = 0;
    let mut vals = [None; 6];
    let mut calls = 0;
    let mut refused = None;
    let mut optional = 0;
    let order: Vec<usize> = if back { (0..6).rev().collect() } else { (0..6).collect() };
    for i in order {
        let (id, required) = ROW[i];
        let here = if required { true } else { optional += 1; others >> (optional - 1) & 1 == 1 };
        if i == at {
            header(&mut o, &mut last, id, t, long);
            if refused.is_none() {
                calls += 1;
                vals[i] = Some(v);
                if t > 6 {
                    refused = Some(o.len());
                }
            }
            o.extend(content(t, v).unwrap());
        } else if here {
            header(&mut o, &mut last, id, other_type, false);
            o.extend(content(other_type, 10 + i as i64).unwrap());
            if refused.is_none() {
                calls += 1;
                vals[i] = Some(10 + i as i64);
            }
        }
    }
    o.push(0);
    (o, vals, refused.map_or(Ok(()), Err), calls)
}

fn written<B: for<'i> CompactThriftProtocol<'i> + std::fmt::Debug>(c: &mut Ctx, v: &B, want: &[u8], calls: (usize, usize)) {
    MADE.with(|m| m.set((0, 0)));
    let mut o = vec![];
    let r = mc::explore::guard(|| v.write_thrift(&mut o));
    let k = MADE.with(|m| m.get());
    c.compared(1);
    c.check(matches!(r, Ok(Ok(()))) && o == want && k == calls, || format!("{v:?} is written with {k:?} calls as {} ({r:?}) instead of {} with {calls:?} calls", hex(&o), hex(want)));
}

pub fn jobs(jobs: &mut Vec<Job<'static>>, th: bool) {
    jobs.push(Job::new("own/row", 0, move |c| {
        let (b, vals, stop, calls) = some_row(c, th);
        c.state(&b);
        let want = row(&vals);
        reads::<Row>(c, &b, stop.map(|_| &want), (calls, 0));
        c.outcome(if stop.is_ok() { "taken from another type" } else { "refused by the user" });
    }));
    jobs.push(Job::new("own/table", 0, move |c| {
        let (b, vals, stop, calls) = some_row(c, th);
        // the row is in the list, or it is the boxed one after it
        let boxed = c.choose(2) == 1;
        let plain = [0x13, 7, 0x03, 38, 7, 0];
        let fixed = [Some(7), None, None, Some(7), None, None];
        let mut o = vec![0x19, 0x2C];
        o.extend(&plain);
        let at = if !boxed { let at = o.len(); o.extend(&b); at } else { o.extend(&plain); 0 };
        // the union, then the other row, then numbers as elements, which have the declared type
        o.extend([0x1C, 0x11, 0x00]);
        o.push(0x1C);
        let at = if boxed { let at = o.len(); o.extend(&b); at } else { o.extend(&plain); at };
        o.extend([0x19, 0x26, 0x03, 0x80, 0x01, 0x00]);
        c.state(&o);
        let want = Table { rows: vec![row(&fixed), if boxed { row(&fixed) } else { row(&vals) }], any: Some(any(0, 1)), last: Box::new(if boxed { row(&vals) } else { row(&fixed) }), plain: Some(vec![Number(-2), Number(64)]) };
        match stop {
            Ok(()) => reads::<Table>(c, &o, Ok(&want), (calls + 5, 2)),
            Err(e) => reads::<Table>(c, &o, Err(at + e), (calls + if boxed { 5 } else { 2 }, 0)),
        }
        c.outcome(if stop.is_ok() { "taken from another type" } else { "refused by the user" });
    }));
    jobs.push(Job::new("own/union", 0, move |c| {
        let i = c.choose(ANY.len());
        let t = 1 + c.choose(15) as u8;
        let vals: Vec<i64> = VALUES.iter().copied().filter(|v| content(t, *v).is_some()).collect();
        let v = vals[if t <= 6 { c.choose(vals.len()) } else { 0 }];
        let mut o = vec![];
        header(&mut o, &mut 0, ANY[i], t, c.choose(2) == 1);
        let at = o.len();
        o.extend(content(t, v).unwrap());
        o.push(0);
        c.state(&o);
        let want = any(i, v);
        reads::<Any>(c, &o, if t <= 6 { Ok(&want) } else { Err(at) }, (1, 0));
        c.outcome(if t <= 6 { "taken from another type" } else { "refused by the user" });
    }));
    jobs.push(Job::new("own/written", 0, move |c| {
        let at = c.choose(7);
        let v = VALUES[c.choose(VALUES.len())];
        let w = VALUES[c.choose(VALUES.len())];
        if at == 6 {
            let i = c.choose(ANY.len());
            let mut o = vec![];
            let t = smallest(v);
            if t != 0 {
                header(&mut o, &mut 0, ANY[i], t, false);
                o.extend(content(t, v).unwrap());
            }
            o.push(0);
            c.state(format!("any {i} {v}").as_bytes());
            written(c, &any(i, v), &o, (1, 0));
            // elements have the declared type, whatever the value
            let mut o = vec![0x26];
            o.extend(content(6, v).unwrap());
            o.extend(content(6, w).unwrap());
            written(c, &vec![Number(v), Number(w)], &o, (0, 2));
            c.outcome("written");
            return;
        }
        let others = c.choose(16);
        let mut vals = [None; 6];
        let mut optional = 0;
        for i in 0..6 {
            let here = if ROW[i].1 { true } else { optional += 1; others >> (optional - 1) & 1 == 1 };
            vals[i] = if i == at { Some(v) } else if here { Some(w) } else { None };
        }
        let mut o = vec![];
        let mut last = 0;
        for i in 0..6 {
            if let Some(v) = vals[i].filter(|v| *v != 0) {
                let t = smallest(v);
                header(&mut o, &mut last, ROW[i].0, t, false);
                o.extend(content(t, v).unwrap());
            }
        }
        o.push(0);
        c.state(format!("{vals:?}").as_bytes());
        written(c, &row(&vals), &o, (vals.iter().flatten().count(), 0));
        c.outcome("written");
    }));
}

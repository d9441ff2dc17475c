//! The user's types again, of every kind of layout: without content, of one byte, large, with a large alignment, with and
//! without a destructor.
use super::*;
use mc::explore::guard;
use mc::wire::W;

thread_local! {
    static FILLS: Cell<usize> = const { Cell::new(0) };
    static WRITES: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
/// The value that is refused.
const BAD: i8 = 6;

pub trait Layout: Default + Clone + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// the only value there is
    const ONLY: Option<i8> = None;
    fn get(&self) -> i8;
    fn set(&mut self, v: i8);
}
macro_rules! layouts {
    ($($(#[$a:meta])* $name:ident $body:tt, $get:expr, $set:expr;)*) => {$(
        #[derive(Clone, PartialEq, Debug)]
        $(#[$a])*
        pub struct $name $body;
        impl Layout for $name {
            const NAME: &'static str = stringify!($name);
            fn get(&self) -> i8 {
                let f: fn(&Self) -> i8 = $get;
                assert_eq!(self as *const Self as usize % std::mem::align_of::<Self>(), 0);
                f(self)
            }
            fn set(&mut self, v: i8) {
                let f: fn(&mut Self, i8) = $set;
                f(self, v)
            }
        }
    )*};
}
layouts! {
    #[derive(Copy, Default)] Tiny(i8), |x| x.0, |x, v| x.0 = v;
    #[derive(Copy, Default)] Word(u32), |x| x.0 as i8, |x, v| x.0 = v as u8 as u32;
    #[derive(Copy, Default)] #[repr(align(128))] Aligned(i8), |x| x.0, |x, v| x.0 = v;
    #[derive(Copy)] Large([u64; 150]), |x| x.0[149] as i8, |x, v| x.0 = [v as u8 as u64; 150];
    Owner(Box<i8>), |x| *x.0, |x, v| *x.0 = v;
}
impl Default for Large {
    fn default() -> Self {
        Large([1; 150])
    }
}
impl Default for Owner {
    fn default() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Owner(Box::new(0))
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Nothing;
impl Layout for Nothing {
    const NAME: &'static str = "Nothing";
    const ONLY: Option<i8> = Some(7);
    fn get(&self) -> i8 {
        7
    }
    fn set(&mut self, _: i8) {}
}
#[derive(Clone, PartialEq, Debug)]
pub struct NothingDropped;
impl Default for NothingDropped {
    fn default() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        NothingDropped
    }
}
impl Drop for NothingDropped {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Layout for NothingDropped {
    const NAME: &'static str = "NothingDropped";
    const ONLY: Option<i8> = Some(7);
    fn get(&self) -> i8 {
        7
    }
    fn set(&mut self, _: i8) {}
}

#[derive(Default, Clone, PartialEq, Debug)]
pub struct X<L, const FT: u8>(L);
impl<'i, L: Layout, const FT: u8> CompactThriftProtocol<'i> for X<L, FT> {
    const FIELD_TYPE: u8 = FT;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> {
        FILLS.with(|f| f.set(f.get() + 1));
        let v = match FT {
            3 => i.read_byte()? as i8,
            5 => i.read_i32()? as i8,
            8 => i.read_binary()?[0] as i8,
            9 => {
                i.read_byte()?;
                i.read_byte()? as i8
            }
            _ => {
                i.read_byte()?;
                let v = i.read_byte()?;
                i.read_byte()?;
                v as i8
            }
        };
        if v == BAD || L::ONLY.is_some_and(|o| o != v) {
            return Err(ThriftError::InvalidNumber);
        }
        self.0.set(v);
        Ok(())
    }
    fn write_thrift<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> {
        WRITES.with(|f| f.set(f.get() + 1));
        let v = self.0.get() as u8;
        match FT {
            3 => o.write_byte(v),
            5 => o.write_i32(v as i8 as i32),
            8 => o.write_binary(&[v]),
            9 => o.write_byte(0x13).and_then(|_| o.write_byte(v)),
            _ => o.write_byte(0x13).and_then(|_| o.write_byte(v)).and_then(|_| o.write_byte(0)),
        }
    }
}
/// What can hold values of the user's type, `n` of them in each list.
pub trait Bag: for<'i> CompactThriftProtocol<'i> + Default + std::fmt::Debug {
    /// it can be filled again
    const AGAIN: bool;
    fn make(v: &mut dyn Iterator<Item = i8>, n: usize) -> Self;
    fn wire(v: &mut dyn Iterator<Item = i8>, n: usize) -> W;
    fn vals(&self, o: &mut Vec<i8>);
}
fn wire_type<B: Bag>() -> u8 {
    <B as CompactThriftProtocol<'static>>::FIELD_TYPE
}
impl<L: Layout, const FT: u8> Bag for X<L, FT> {
    const AGAIN: bool = true;
    fn make(v: &mut dyn Iterator<Item = i8>, _: usize) -> Self {
        let mut x = X(L::default());
        x.0.set(v.next().unwrap());
        x
    }
    fn wire(v: &mut dyn Iterator<Item = i8>, _: usize) -> W {
        let v = v.next().unwrap();
        match FT {
            3 => W::Byte(v),
            5 => W::I32(v as i64),
            8 => W::Bin(vec![v as u8]),
            9 => W::List(wire::BYTE, vec![W::Byte(v)]),
            _ => W::Struct(vec![(1, W::Byte(v))]),
        }
    }
    fn vals(&self, o: &mut Vec<i8>) {
        o.push(self.0.get())
    }
}
impl<B: Bag> Bag for Vec<B> {
    const AGAIN: bool = true;
    fn make(v: &mut dyn Iterator<Item = i8>, n: usize) -> Self {
        (0..n).map(|_| B::make(v, n)).collect()
    }
    fn wire(v: &mut dyn Iterator<Item = i8>, n: usize) -> W {
        W::List(wire_type::<B>(), (0..n).map(|_| B::wire(v, n)).collect())
    }
    fn vals(&self, o: &mut Vec<i8>) {
        self.iter().for_each(|x| x.vals(o))
    }
}
macro_rules! wrapped {
    ($($t:ident, $again:expr, $new:expr;)*) => {$(
        impl<B: Bag> Bag for $t<B> {
            const AGAIN: bool = $again && B::AGAIN;
            fn make(v: &mut dyn Iterator<Item = i8>, n: usize) -> Self {
                $new(B::make(v, n))
            }
            fn wire(v: &mut dyn Iterator<Item = i8>, n: usize) -> W {
                B::wire(v, n)
            }
            fn vals(&self, o: &mut Vec<i8>) {
                self.iter().for_each(|x| x.vals(o))
            }
        }
    )*};
}
wrapped! { Option, false, Some; }
macro_rules! pointers {
    ($($t:ident)*) => {$(
        impl<B: Bag> Bag for $t<B> {
            const AGAIN: bool = B::AGAIN;
            fn make(v: &mut dyn Iterator<Item = i8>, n: usize) -> Self {
                $t::new(B::make(v, n))
            }
            fn wire(v: &mut dyn Iterator<Item = i8>, n: usize) -> W {
                B::wire(v, n)
            }
            fn vals(&self, o: &mut Vec<i8>) {
                (**self).vals(o)
            }
        }
    )*};
}
pointers! { Box Rc Arc }

fn numbered<L: Layout>(k: usize) -> i8 {
    L::ONLY.unwrap_or([7, -1, 100, 0, -128, 5][k % 6])
}
fn hold<B: Bag, L: Layout>(c: &mut Ctx, name: &str) {
    let n = *c.pick(&[0usize, 1, 2, 3, 14, 15, 16, 40]);
    let first = c.choose(2);
    let all: Vec<i8> = {
        let mut k = 0;
        B::wire(&mut std::iter::from_fn(|| { k += 1; Some(0) }), n);
        (0..k).map(|i| numbered::<L>(i + first)).collect()
    };
    // the one that is refused, if any
    let places: Vec<usize> = if all.len() <= 16 { (0..all.len()).collect() } else { vec![0, 1, all.len() / 2, all.len() - 1] };
    let bad = Some(c.choose(places.len() + 1)).filter(|b| *b > 0).map(|b| places[b - 1]);
    let old = *c.pick(&[0usize, 1, 2, 3, 15, 40]);
    let mut sent = all.clone();
    if let Some(k) = bad {
        sent[k] = BAD;
    }
    let w = B::wire(&mut sent.iter().copied(), n);
    let mut b = wire::canon(&w);
    c.state(&b);
    let len = b.len();
    b.push(0x15);
    LIVE.with(|l| l.set(0));
    for how in 0..4 {
        if how >= 2 && !B::AGAIN {
            continue;
        }
        FILLS.with(|f| f.set(0));
        let what = || format!("{name} of {n}: {} {}", hex(&b[..len]), ["read from a slice", "read from a stream", "filled over another value", "filled over another value as a field"][how]);
        let mut left = 0;
        let r = guard(|| {
            let mut i = compact_thrift_runtime::CompactThriftInputSlice::new(&b);
            let r = match how {
                0 => B::read_thrift(&mut i),
                1 => {
                    let mut s = &b[..];
                    let r = B::read_thrift(&mut s);
                    left = s.len();
                    r
                }
                _ => {
                    let mut x = B::make(&mut (0..).map(|k| numbered::<L>(k + 1)), old);
                    if how == 2 { x.fill_thrift(&mut i) } else { x.fill_thrift_field(&mut i, wire_type::<B>()) }.map(|_| x)
                }
            };
            if how != 1 {
                left = i.as_slice().len();
            }
            r.map(|x| {
                let mut o = vec![];
                x.vals(&mut o);
                o
            })
        });
        let fills = FILLS.with(|f| f.get());
        c.compared(1);
        match (&r, bad) {
            (Ok(Ok(v)), None) => c.check(*v == all && left == 1 && fills == all.len(), || format!("{} gives {v:?} instead of {all:?}, with {fills} calls and {left} bytes left", what())),
            (Ok(Err(ThriftError::InvalidNumber)), Some(k)) => c.check(fills == k + 1, || format!("{}: {fills} calls up to the value that is refused, number {k}", what())),
            _ => c.fail(format!("{} gives {r:?} where the value that is refused is {bad:?}", what())),
        }
        let live = LIVE.with(|l| l.get());
        // clones are not counted, and none are made
        c.check(live == 0, || format!("{}: {live} values of the user's type are left", what()));
    }
    if bad.is_none() {
        WRITES.with(|f| f.set(0));
        let r = guard(|| {
            let x = B::make(&mut all.iter().copied(), n);
            let mut o = vec![];
            let mut f = vec![];
            let mut last = 3;
            let r = x.write_thrift(&mut o).and_then(|_| x.write_thrift_field(&mut f, 5, &mut last));
            r.map(|_| (o, f, last))
        });
        let mut want = vec![0x20 | wire_type::<B>()];
        want.extend(&b[..len]);
        let writes = WRITES.with(|f| f.get());
        c.compared(1);
        c.check(matches!(&r, Ok(Ok((o, f, 5))) if *o == b[..len] && *f == want) && writes == 2 * all.len(), || {
            format!("{name} of {n}: {all:?} is written with {writes} calls as {r:?} instead of {} and, as a field, {}", hex(&b[..len]), hex(&want))
        });
        let live = LIVE.with(|l| l.get());
        c.check(live == 0, || format!("{name} of {n}, written: {live} values of the user's type are left"));
    }
    c.outcome(if bad.is_some() { "a value refused" } else { "all values kept" });
}

macro_rules! holders {
    ($($m:ident = $l:ident $ft:literal),*) => {$(
        mod $m {
            use super::*;
            pub type U = X<$l, $ft>;
            compact_thrift_runtime::thrift! {
                struct Holder { 1: required U a; 2: optional U b; 3: optional list<U> c; 20: optional Box<U> d; 21: required Arc<U> e }
                union Either { 1: U a 2: list<U> b }
            }
            impl Bag for Holder {
                const AGAIN: bool = false;
                fn make(v: &mut dyn Iterator<Item = i8>, n: usize) -> Self {
                    Holder { a: Bag::make(v, n), b: Bag::make(v, n), c: Bag::make(v, n), d: Bag::make(v, n), e: Bag::make(v, n) }
                }
                fn wire(v: &mut dyn Iterator<Item = i8>, n: usize) -> W {
                    let mut one = || U::wire(v, n);
                    let (a, b) = (one(), one());
                    let c = Vec::<U>::wire(v, n);
                    let mut one = || U::wire(v, n);
                    W::Struct(vec![(1, a), (2, b), (3, c), (20, one()), (21, one())])
                }
                fn vals(&self, o: &mut Vec<i8>) {
                    self.a.vals(o);
                    self.b.vals(o);
                    self.c.vals(o);
                    self.d.vals(o);
                    self.e.vals(o);
                }
            }
            impl Bag for Either {
                const AGAIN: bool = true;
                fn make(v: &mut dyn Iterator<Item = i8>, n: usize) -> Self {
                    if n % 2 == 0 { Either::a(Bag::make(v, n)) } else { Either::b(Bag::make(v, n)) }
                }
                fn wire(v: &mut dyn Iterator<Item = i8>, n: usize) -> W {
                    W::Struct(vec![if n % 2 == 0 { (1, U::wire(v, n)) } else { (2, Vec::<U>::wire(v, n)) }])
                }
                fn vals(&self, o: &mut Vec<i8>) {
                    match self {
                        Either::a(x) => x.vals(o),
                        Either::b(x) => x.vals(o),
                    }
                }
            }
            pub fn jobs(jobs: &mut Vec<Job<'static>>) {
                fn add<B: Bag + 'static>(jobs: &mut Vec<Job<'static>>, place: &str) {
                    let name = format!("{}/{}, {} bytes, type {}", place, $l::NAME, std::mem::size_of::<U>(), $ft);
                    jobs.push(Job::new(format!("layout/{name}"), 0, move |c| hold::<B, $l>(c, &name)));
                }
                add::<U>(jobs, "U");
                add::<Option<U>>(jobs, "Option<U>");
                add::<Box<U>>(jobs, "Box<U>");
                add::<Vec<U>>(jobs, "Vec<U>");
                add::<Vec<Option<U>>>(jobs, "Vec<Option<U>>");
                add::<Vec<Box<U>>>(jobs, "Vec<Box<U>>");
                add::<Vec<Rc<U>>>(jobs, "Vec<Rc<U>>");
                add::<Vec<Vec<U>>>(jobs, "Vec<Vec<U>>");
                add::<Option<Vec<U>>>(jobs, "Option<Vec<U>>");
                add::<Option<Arc<U>>>(jobs, "Option<Arc<U>>");
                add::<Holder>(jobs, "Holder");
                add::<Vec<Holder>>(jobs, "Vec<Holder>");
                add::<Either>(jobs, "Either");
                add::<Vec<Either>>(jobs, "Vec<Either>");
            }
        }
    )*
    pub fn jobs(jobs: &mut Vec<Job<'static>>) {
        $($m::jobs(jobs);)*
    }
    };
}
holders! {
    a3 = Nothing 3, a5 = Nothing 5, a8 = Nothing 8, a9 = Nothing 9, a12 = Nothing 12,
    b3 = NothingDropped 3, b5 = NothingDropped 5, b8 = NothingDropped 8, b9 = NothingDropped 9, b12 = NothingDropped 12,
    c3 = Tiny 3, c5 = Tiny 5, c8 = Tiny 8, c9 = Tiny 9, c12 = Tiny 12,
    d3 = Word 3, d5 = Word 5, d8 = Word 8, d9 = Word 9, d12 = Word 12,
    e3 = Aligned 3, e5 = Aligned 5, e8 = Aligned 8, e9 = Aligned 9, e12 = Aligned 12,
    f3 = Large 3, f5 = Large 5, f8 = Large 8, f9 = Large 9, f12 = Large 12,
    g3 = Owner 3, g5 = Owner 5, g8 = Owner 8, g9 = Owner 9, g12 = Owner 12
}

//! Nominal systems built at run time from their descriptions, out of the
//! crate's own types.

use std::fmt::Display;
use std::marker::PhantomData;
use std::rc::Rc;

use nominals::*;

use crate::out::{fallible, infallible, Into128, Out};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ty {
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
}

pub const TYPES: [Ty; 6] = [Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::Usize];

impl Ty {
    pub fn max(self) -> u128 {
        match self {
            Ty::U8 => u8::MAX.into(),
            Ty::U16 => u16::MAX.into(),
            Ty::U32 => u32::MAX.into(),
            Ty::U64 => u64::MAX.into(),
            Ty::U128 => u128::MAX,
            Ty::Usize => usize::MAX as u128,
        }
    }
    pub fn parse(s: &str) -> Ty {
        match s {
            "u8" => Ty::U8,
            "u16" => Ty::U16,
            "u32" => Ty::U32,
            "u64" => Ty::U64,
            "u128" => Ty::U128,
            _ => Ty::Usize,
        }
    }
}

/// Everything observed about one infallible request.
pub struct Full {
    pub a: Out,
    pub x: Vec<Out>,
    pub y: Vec<Out>,
}

/// The answers of a system (a fallible, b infallible) and of its wrapped forms.
pub struct Wraps {
    pub a: Out,
    pub b: Out,
    pub x: Vec<Out>,
    pub y: Vec<Out>,
}

macro_rules! any_system {
    ($($ty:ident $try:ident $fmt:ident)*) => {
        /// The two requests of every type, made to a system of unknown type.
        pub trait AnySystem {
            $(fn $try(&self, n: $ty) -> Result<NominalString, Error<$ty>>;
            fn $fmt(&self, n: $ty) -> NominalString;)*
        }
        pub trait All: $(NominalSystem<$ty> +)* 'static {}
        impl<S: $(NominalSystem<$ty> +)* 'static> All for S {}
        impl<S: All> AnySystem for S {
            $(fn $try(&self, n: $ty) -> Result<NominalString, Error<$ty>> {
                self.try_format_nominal(n)
            }
            fn $fmt(&self, n: $ty) -> NominalString {
                self.format_nominal(n)
            })*
        }
        $(impl NominalSystem<$ty> for Sys {
            fn try_format_nominal(&self, n: $ty) -> Result<NominalString, Error<$ty>> {
                self.0.$try(n)
            }
            fn format_nominal(&self, n: $ty) -> NominalString {
                self.0.$fmt(n)
            }
        })*
    };
}
any_system!(u8 try_u8 fmt_u8 u16 try_u16 fmt_u16 u32 try_u32 fmt_u32 u64 try_u64 fmt_u64 u128 try_u128 fmt_u128
    usize try_usize fmt_usize);

/// A system of the crate, passed on request by request.
#[derive(Clone)]
pub struct Sys(Rc<dyn AnySystem>);

fn full<T: Nominal + Into128>(s: &Sys, n: T) -> Full
where
    Sys: NominalSystem<T>,
{
    let a = fallible(|| s.try_format_nominal(n));
    let mut x = vec![
        infallible(|| s.format_nominal(n)),
        infallible(|| n.to_nominal(s)),
        infallible(|| s.try_format_nominal(n).unwrap_or_decimal()),
        infallible(|| n.try_to_nominal(s).unwrap_or_decimal()),
    ];
    if a.r != "ok" && a.r != "panic" {
        x.push(infallible(|| match s.try_format_nominal(n) {
            Ok(s) => s,
            Err(e) => e.into_decimal(),
        }));
    }
    let y = vec![fallible(|| n.try_to_nominal(s)), fallible(|| s.try_format_nominal(n))];
    Full { a, x, y }
}

/// Through the system (a, b) and through the number (x, y).
fn routes<T: Nominal + Into128>(s: &Sys, n: T) -> Wraps
where
    Sys: NominalSystem<T>,
{
    let unsized_: &dyn NominalSystem<T> = s;
    Wraps {
        a: fallible(|| s.try_format_nominal(n)),
        b: infallible(|| s.format_nominal(n)),
        x: vec![fallible(|| n.try_to_nominal(s)), fallible(|| n.try_to_nominal(unsized_))],
        y: vec![infallible(|| n.to_nominal(s)), infallible(|| unsized_.format_nominal(n))],
    }
}

#[cfg(feature = "alloc")]
fn wraps<T: Nominal + Into128 + 'static>(s: &Sys, n: T) -> Wraps
where
    Sys: NominalSystem<T>,
{
    use std::sync::Arc;
    let a = fallible(|| s.try_format_nominal(n));
    let b = infallible(|| s.format_nominal(n));
    let mut x = Vec::new();
    let mut y = Vec::new();
    macro_rules! look {
        ($w:expr) => {{
            let w = $w;
            x.push(fallible(|| w.try_format_nominal(n)));
            x.push(fallible(|| n.try_to_nominal(&w)));
            y.push(infallible(|| w.format_nominal(n)));
            y.push(infallible(|| n.to_nominal(&w)));
        }};
    }
    type B<T> = Box<dyn NominalSystem<T>>;
    type R<T> = Rc<dyn NominalSystem<T>>;
    type A<T> = Arc<dyn NominalSystem<T>>;
    let bx = || -> B<T> { Box::new(s.clone()) };
    let rc = || -> R<T> { Rc::new(s.clone()) };
    #[allow(clippy::arc_with_non_send_sync)]
    let arc = || -> A<T> { Arc::new(s.clone()) };
    look!(bx());
    look!(rc());
    look!(arc());
    look!(Box::new(bx()) as B<T>);
    look!(Rc::new(rc()) as R<T>);
    look!(Arc::new(arc()) as A<T>);
    look!(Box::new(rc()) as B<T>);
    look!(Box::new(arc()) as B<T>);
    look!(Rc::new(bx()) as R<T>);
    look!(Rc::new(arc()) as R<T>);
    look!(Arc::new(bx()) as A<T>);
    look!(Arc::new(rc()) as A<T>);
    look!(Box::new(Rc::new(Arc::new(bx()) as A<T>) as R<T>) as B<T>);
    Wraps { a, b, x, y }
}

#[cfg(not(feature = "alloc"))]
fn wraps<T>(_: &Sys, _: T) -> Wraps {
    unreachable!("only with allocation")
}

macro_rules! dispatch {
    ($ty:expr, $n:expr, $v:ident => $e:expr) => {
        match $ty {
            Ty::U8 => {
                let $v = $n as u8;
                $e
            }
            Ty::U16 => {
                let $v = $n as u16;
                $e
            }
            Ty::U32 => {
                let $v = $n as u32;
                $e
            }
            Ty::U64 => {
                let $v = $n as u64;
                $e
            }
            Ty::U128 => {
                let $v = $n;
                $e
            }
            Ty::Usize => {
                let $v = $n as usize;
                $e
            }
        }
    };
}

impl Sys {
    pub fn fallible(&self, ty: Ty, n: u128) -> Out {
        dispatch!(ty, n, v => fallible(|| self.try_format_nominal(v)))
    }
    pub fn infallible(&self, ty: Ty, n: u128) -> Out {
        dispatch!(ty, n, v => infallible(|| self.format_nominal(v)))
    }
    pub fn full(&self, ty: Ty, n: u128) -> Full {
        dispatch!(ty, n, v => full(self, v))
    }
    pub fn routes(&self, ty: Ty, n: u128) -> Wraps {
        dispatch!(ty, n, v => routes(self, v))
    }
    pub fn wraps(&self, ty: Ty, n: u128) -> Wraps {
        dispatch!(ty, n, v => wraps(self, v))
    }
    pub fn string(&self, ty: Ty, n: u128) -> Option<NominalString> {
        dispatch!(ty, n, v => self.try_format_nominal(v).ok())
    }
}

/// Errors made by hand, and what they become in decimal.
/// What a number says about itself: is it zero, and as a usize.
pub fn number(ty: Ty, n: u128) -> (bool, usize) {
    dispatch!(ty, n, v => (UnsignedInteger::is_zero(v), UnsignedInteger::as_usize(v)))
}

pub fn made(kind: &str, ty: Ty, n: u128) -> (Out, Vec<Out>) {
    fn go<T: Nominal + Into128>(kind: &str, n: T) -> (Out, Vec<Out>) {
        let make = || match kind {
            "nozero" => Error::NoZeroSymbol,
            "oob" => Error::OutOfBounds(n),
            _ => Err::<(), _>(OutOfMemoryError).with_nominal(n).unwrap_err(),
        };
        (
            fallible(|| Err(make())),
            vec![infallible(|| make().into_decimal()), infallible(|| Err(make()).unwrap_or_decimal())],
        )
    }
    dispatch!(ty, n, v => go(kind, v))
}

// ---------------------------------------------------------------------------
// Digit collections described at run time.

trait ObjC {
    fn fixed(&self) -> bool;
    fn has_zero_digit(&self) -> bool;
    fn zero_based(&self) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn digit(&self, index: usize) -> char;
}

impl<D: DigitCollection> ObjC for D {
    fn fixed(&self) -> bool {
        DigitCollection::fixed(self)
    }
    fn has_zero_digit(&self) -> bool {
        DigitCollection::has_zero_digit(self)
    }
    fn zero_based(&self) -> bool {
        DigitCollection::zero_based(self)
    }
    fn len(&self) -> usize {
        DigitCollection::len(self)
    }
    fn is_empty(&self) -> bool {
        DigitCollection::is_empty(self)
    }
    fn digit(&self, index: usize) -> char {
        DigitCollection::digit(self, index)
    }
}

/// Any digit collection, with the type of its fallback kept.
pub struct DynC<F>(Rc<dyn ObjC>, PhantomData<F>);

impl<F> DynC<F> {
    fn of<D: DigitCollection + 'static>(d: D) -> Self {
        DynC(Rc::new(d), PhantomData)
    }
}

impl<F: DigitCollection + Default> DigitCollection for DynC<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.0.fixed()
    }
    fn has_zero_digit(&self) -> bool {
        self.0.has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        self.0.zero_based()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn digit(&self, index: usize) -> char {
        self.0.digit(index)
    }
}

/// A user-defined collection.
struct User<F> {
    syms: Vec<char>,
    zero: bool,
    zb: bool,
    fixed: bool,
    fb: PhantomData<F>,
}

impl<F: DigitCollection + Default> DigitCollection for User<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.fixed
    }
    fn has_zero_digit(&self) -> bool {
        self.zero
    }
    fn zero_based(&self) -> bool {
        self.zb
    }
    fn len(&self) -> usize {
        self.syms.len()
    }
    fn digit(&self, index: usize) -> char {
        self.syms[index]
    }
}

/// A fixed collection used as a fallback: Ⓐ..Ⓣ for 1..20, then decimal.
#[derive(Default)]
pub struct FixA;
impl DigitCollection for FixA {
    type Fallback = Decimal;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn zero_based(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        20
    }
    fn digit(&self, index: usize) -> char {
        char::from_u32(0x24B6 + index as u32).unwrap()
    }
}

/// A fixed collection used as a fallback: ⓐ..ⓛ for 0..11, then FixA.
#[derive(Default)]
pub struct FixZ;
impl DigitCollection for FixZ {
    type Fallback = FixA;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        12
    }
    fn digit(&self, index: usize) -> char {
        char::from_u32(0x24D0 + index as u32).unwrap()
    }
}

/// A fixed collection used as a fallback: 0..4, with a zero, then nothing.
#[derive(Default)]
pub struct FixN;
impl DigitCollection for FixN {
    type Fallback = NoFallback;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        true
    }
    fn len(&self) -> usize {
        5
    }
    fn digit(&self, index: usize) -> char {
        char::from_u32(0x2080 + index as u32).unwrap()
    }
}

/// A fixed collection of one symbol used as a fallback: ☉ for 0, then FixN.
#[derive(Default)]
pub struct Sing;
impl DigitCollection for Sing {
    type Fallback = FixN;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        1
    }
    fn digit(&self, _index: usize) -> char {
        '\u{2609}'
    }
}

/// Tally marks used as a fallback.
#[derive(Default)]
pub struct Tally;
impl DigitCollection for Tally {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn zero_based(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        1
    }
    fn digit(&self, _index: usize) -> char {
        '|'
    }
}

/// A lone zero used as a fallback.
#[derive(Default)]
pub struct Zero;
impl DigitCollection for Zero {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        true
    }
    fn len(&self) -> usize {
        1
    }
    fn digit(&self, _index: usize) -> char {
        '\u{24EA}'
    }
}

/// A collection under construction, sorted by its fallback.
pub enum C {
    None(DynC<NoFallback>),
    Cjk(DynC<CjkDecimal>),
    Hex(DynC<HexLower>),
    Let(DynC<LetterUpper>),
    FixA(DynC<FixA>),
    FixZ(DynC<FixZ>),
    FixN(DynC<FixN>),
    Emp(DynC<Restrict<Decimal>>),
    Sing(DynC<Sing>),
    Tally(DynC<Tally>),
    Zero(DynC<Zero>),
}

macro_rules! each {
    ($c:expr, $d:ident, $k:ident => $e:expr) => {
        match $c {
            C::None($d) => {
                #[allow(unused)]
                use C::None as $k;
                $e
            }
            C::Cjk($d) => {
                #[allow(unused)]
                use C::Cjk as $k;
                $e
            }
            C::Hex($d) => {
                #[allow(unused)]
                use C::Hex as $k;
                $e
            }
            C::Let($d) => {
                #[allow(unused)]
                use C::Let as $k;
                $e
            }
            C::FixA($d) => {
                #[allow(unused)]
                use C::FixA as $k;
                $e
            }
            C::FixZ($d) => {
                #[allow(unused)]
                use C::FixZ as $k;
                $e
            }
            C::FixN($d) => {
                #[allow(unused)]
                use C::FixN as $k;
                $e
            }
            C::Emp($d) => {
                #[allow(unused)]
                use C::Emp as $k;
                $e
            }
            C::Sing($d) => {
                #[allow(unused)]
                use C::Sing as $k;
                $e
            }
            C::Tally($d) => {
                #[allow(unused)]
                use C::Tally as $k;
                $e
            }
            C::Zero($d) => {
                #[allow(unused)]
                use C::Zero as $k;
                $e
            }
        }
    };
}

/// A collection's answers about itself.
pub struct About {
    pub len: usize,
    pub empty: bool,
    pub zero: bool,
    pub digits: Vec<char>,
}

fn about(d: &dyn ObjC) -> About {
    let len = d.len();
    About {
        len,
        empty: d.is_empty(),
        zero: d.has_zero_digit(),
        digits: (0..len.min(100_000)).map(|i| d.digit(i)).collect(),
    }
}

/// A system, and what its collection says about itself if it has one.
pub struct Built {
    pub sys: Sys,
    pub about: Option<Box<dyn Fn() -> About>>,
}

fn coll<D: DigitCollection + 'static>(d: D) -> Built {
    let d = Rc::new(d);
    Built { sys: Sys(d.clone()), about: Some(Box::new(move || about(&*d))) }
}

fn plain_sys<S: All>(s: S) -> Built {
    Built { sys: Sys(Rc::new(s)), about: None }
}

pub type Tokens<'a> = std::str::SplitWhitespace<'a>;

fn num<T: std::str::FromStr>(t: &mut Tokens) -> T {
    t.next().unwrap().parse().ok().unwrap()
}

/// A number of digits; more than fit a usize are as many as fit.
fn count(t: &mut Tokens) -> usize {
    usize::try_from(num::<u64>(t)).unwrap_or(usize::MAX)
}

pub fn chars(s: &str) -> Vec<char> {
    if s == "-" {
        return Vec::new();
    }
    s.split(',').map(|c| char::from_u32(c.parse().unwrap()).unwrap()).collect()
}

pub fn string(s: &str) -> String {
    chars(s).into_iter().collect()
}

macro_rules! builtins {
    ($m:ident!($($x:tt)*)) => {
        $m!([Decimal EasternArabic Persian Urdu Bengali Cambodian Khmer CjkDecimal Devanagari Gujarati Gurmukhi
             Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan LetterUpper LetterLower
             GreekUpper GreekLower Hiragana HiraganaIroha Katakana KatakanaIroha HangeulJamo HangeulSyllable
             HexUpper HexLower] $($x)*)
    };
}

fn array<const N: usize>(v: &[char]) -> [char; N] {
    v.try_into().unwrap()
}

/// Digit sets of the sizes the checks use.
macro_rules! with_size {
    ($n:expr, $N:ident => $e:expr) => {
        with_size!(@ $n, $N, $e, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 24 26 32 36 37 46 52 60 62 64 100 128
                   200 254 255 256 257 300 1000)
    };
    (@ $n:expr, $N:ident, $e:expr, $($k:literal)*) => {
        match $n {
            $($k => { const $N: usize = $k; $e })*
            n => panic!("unsupported size {n}"),
        }
    };
}

fn leaf_set(zero: bool, syms: &[char]) -> C {
    with_size!(syms.len(), N => if zero {
        C::None(DynC::of(DigitSet::<N, true>::new(array(syms))))
    } else {
        C::None(DynC::of(DigitSet::<N, false>::zeroless(array(syms))))
    })
}

fn user(fb: &str, syms: Vec<char>, zero: bool, zb: bool, fixed: bool) -> C {
    macro_rules! mk {
        ($k:ident) => {
            C::$k(DynC::of(User { syms, zero, zb, fixed, fb: PhantomData::<NoFallback> }))
        };
    }
    match fb {
        "none" => mk!(None),
        "cjk" => mk!(Cjk),
        "hex" => mk!(Hex),
        "let" => mk!(Let),
        "fixa" => mk!(FixA),
        "fixz" => mk!(FixZ),
        "fixn" => mk!(FixN),
        "emp" => mk!(Emp),
        "sing" => mk!(Sing),
        "tally" => mk!(Tally),
        "zero" => mk!(Zero),
        _ => panic!("unknown fallback {fb}"),
    }
}

fn consecutive(base: u32, len: usize) -> Vec<char> {
    (0..len as u32).map(|i| char::from_u32(base + i).unwrap()).collect()
}

fn leaf_builtin(name: &str) -> C {
    macro_rules! pick {
        ([$($k:ident)*]) => {
            match name {
                $(stringify!($k) => C::None(DynC::of($k)),)*
                "CjkHeavenlyStem" => C::Cjk(DynC::of(CjkHeavenlyStem)),
                "CjkEarthlyBranch" => C::Cjk(DynC::of(CjkEarthlyBranch)),
                _ => panic!("unknown collection {name}"),
            }
        };
    }
    builtins!(pick!())
}

fn term(t: &mut Tokens) -> C {
    let head = t.next().unwrap();
    term_of(head, t)
}

fn term_of(head: &str, t: &mut Tokens) -> C {
    match head {
        "b" => leaf_builtin(t.next().unwrap()),
        "NoFallback" => C::None(DynC::of(NoFallback)),
        "set" => {
            let zero = num::<u8>(t) == 1;
            leaf_set(zero, &chars(t.next().unwrap()))
        }
        "range" => {
            let (len, base) = (num(t), num(t));
            let (zero, zb, fixed) = (num::<u8>(t) == 1, num::<u8>(t) == 1, num::<u8>(t) == 1);
            user(t.next().unwrap(), consecutive(base, len), zero, zb, fixed)
        }
        "one" => each!(term(t), d, K => K(DynC::of(d.one_based()))),
        "rest" => {
            let k = count(t);
            each!(term(t), d, K => K(DynC::of(Restrict::new(k, d))))
        }
        "chain" => {
            let a = term(t);
            let b = term(t);
            let b = bare(b);
            each!(a, x, K => C::None(DynC::of(x.and(b))))
        }
        "chainnew" => {
            let a = term(t);
            let b = term(t);
            let b = bare(b);
            each!(a, x, K => C::None(DynC::of(Chain::new(x, b))))
        }
        _ => panic!("unknown term {head}"),
    }
}

/// A collection without its fallback, for the second half of a chain.
fn bare(c: C) -> DynC<NoFallback> {
    each!(c, d, K => DynC(d.0, PhantomData))
}

/// The outermost collection keeps its own type.
fn top(t: &mut Tokens) -> Built {
    let head = t.next().unwrap();
    match head {
        "b" => {
            let name = t.next().unwrap();
            macro_rules! pick {
                ([$($k:ident)*]) => {
                    match name {
                        $(stringify!($k) => coll($k),)*
                        "CjkHeavenlyStem" => coll(CjkHeavenlyStem),
                        "CjkEarthlyBranch" => coll(CjkEarthlyBranch),
                        _ => panic!("unknown collection {name}"),
                    }
                };
            }
            builtins!(pick!())
        }
        "NoFallback" => coll(NoFallback),
        "set" => {
            let zero = num::<u8>(t) == 1;
            let syms = chars(t.next().unwrap());
            with_size!(syms.len(), N => if zero {
                coll(DigitSet::<N, true>::new(array(&syms)))
            } else {
                coll(DigitSet::<N, false>::zeroless(array(&syms)))
            })
        }
        "one" => {
            let head = t.next().unwrap();
            if head == "b" {
                let name = t.next().unwrap();
                macro_rules! pick {
                    ([$($k:ident)*]) => {
                        match name {
                            $(stringify!($k) => coll($k.one_based()),)*
                            "CjkHeavenlyStem" => coll(CjkHeavenlyStem.one_based()),
                            "CjkEarthlyBranch" => coll(CjkEarthlyBranch.one_based()),
                            _ => panic!("unknown collection {name}"),
                        }
                    };
                }
                return builtins!(pick!());
            }
            each!(term_of(head, t), d, K => coll(OneBased::new(d)))
        }
        "rest" => {
            let k = count(t);
            each!(term(t), d, K => coll(Restrict::new(k, d)))
        }
        "chain" => {
            let a = term(t);
            let b = bare(term(t));
            each!(a, x, K => coll(x.and(b)))
        }
        _ => each!(term_of(head, t), d, K => coll(d)),
    }
}

// ---------------------------------------------------------------------------

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// `sym:value;sym:value` or `-`.
pub fn symbols(s: &str) -> Vec<(&'static str, u128)> {
    if s == "-" {
        return Vec::new();
    }
    s.split(';')
        .map(|p| {
            let (a, b) = p.split_once(':').unwrap();
            (leak(string(a)), b.parse().unwrap())
        })
        .collect()
}

pub fn additive(v: &[(&'static str, u128)]) -> Built {
    macro_rules! mk {
        ($($k:literal)*) => {
            match v.len() {
                $($k => plain_sys(AdditiveSet::<$k>::new(<[_; $k]>::try_from(v).unwrap())),)*
                n => panic!("unsupported size {n}"),
            }
        };
    }
    mk!(0 1 2 3 4 5 6 7 8 9 10 12 16 20 26 40)
}

fn enumerated(zero: bool, v: &[&'static str]) -> Built {
    macro_rules! mk {
        ($($k:literal)*) => {
            match v.len() {
                $($k => if zero {
                    plain_sys(EnumeratedSet::<$k, true>::new(<[_; $k]>::try_from(v).unwrap()))
                } else {
                    plain_sys(EnumeratedSet::<$k, false>::zeroless(<[_; $k]>::try_from(v).unwrap()))
                },)*
                n => panic!("unsupported size {n}"),
            }
        };
    }
    mk!(0 1 2 3 4 5 6 7 8 9 10 11 12 16 20 50 51 100 255 256 257 300)
}

/// Options are applied one after another.
fn chinese(trad: bool, formal: bool, options: &str) -> Built {
    macro_rules! style {
        ($t:ident) => {{
            let mut s = $t::default();
            for o in options.split(',') {
                s = match o {
                    "financial" => s.financial(),
                    "short" => s.short_scale(),
                    "mid" => s.mid_scale(),
                    "long" => s.long_scale(),
                    _ => s,
                };
            }
            plain_sys(s)
        }};
    }
    match (trad, formal) {
        (false, false) => style!(SimplifiedChineseInformal),
        (false, true) => style!(SimplifiedChineseFormal),
        (true, false) => style!(TraditionalChineseInformal),
        (true, true) => style!(TraditionalChineseFormal),
    }
}

/// A user system with its own idea of infallible formatting.
struct Own {
    bound: u128,
    err: String,
    pre: String,
    inf: String,
}

impl<T: Nominal + Into128 + Display> NominalSystem<T> for Own {
    fn format_nominal(&self, nominal: T) -> NominalString {
        let mut s = NominalString::new();
        s.try_push_str(&self.inf).unwrap();
        s.try_push_str(&nominal.to_string()).unwrap();
        s
    }
    fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
        if nominal.into128() < self.bound {
            let mut s = NominalString::new();
            s.try_push_str(&self.pre).with_nominal(nominal)?;
            s.try_push_str(&nominal.to_string()).with_nominal(nominal)?;
            Ok(s)
        } else {
            Err(match self.err.as_str() {
                "nozero" => Error::NoZeroSymbol,
                "oom" => Error::OutOfMemory(nominal),
                _ => Error::OutOfBounds(nominal),
            })
        }
    }
}

/// A user system that only knows fallible formatting.
struct Fails(Own);
impl<T: Nominal + Into128 + Display> NominalSystem<T> for Fails {
    fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
        self.0.try_format_nominal(nominal)
    }
}

pub fn build(t: &mut Tokens) -> Built {
    match t.next().unwrap() {
        "coll" => top(t),
        "additive" => match t.next().unwrap() {
            "RomanUpper" => plain_sys(RomanUpper),
            "RomanLower" => plain_sys(RomanLower),
            "ArmenianUpper" => plain_sys(ArmenianUpper),
            "ArmenianLower" => plain_sys(ArmenianLower),
            "Georgian" => plain_sys(Georgian),
            "JapaneseFormal" => plain_sys(JapaneseFormal),
            "JapaneseInformal" => plain_sys(JapaneseInformal),
            "HangeulFormal" => plain_sys(HangeulFormal),
            "HanjaInformal" => plain_sys(HanjaInformal),
            "HanjaFormal" => plain_sys(HanjaFormal),
            n => panic!("unknown additive system {n}"),
        },
        "addset" => additive(&symbols(t.next().unwrap())),
        "enum" => match t.next().unwrap() {
            "CircledNumber" => plain_sys(CircledNumber),
            "DoubleCircledNumber" => plain_sys(DoubleCircledNumber),
            n => panic!("unknown enumerated system {n}"),
        },
        "enumset" => {
            let zero = num::<u8>(t) == 1;
            let s = t.next().unwrap();
            let v: Vec<&'static str> =
                if s == "-" { Vec::new() } else { s.split(';').map(|p| leak(string(p))).collect() };
            enumerated(zero, &v)
        }
        "chinese" => {
            let (trad, formal) = (num::<u8>(t) == 1, num::<u8>(t) == 1);
            chinese(trad, formal, t.next().unwrap())
        }
        "hebrew" => plain_sys(Hebrew),
        "ethiopic" => plain_sys(Ethiopic),
        k @ ("own" | "fails") => {
            let own = Own {
                bound: num(t),
                err: t.next().unwrap().to_string(),
                pre: string(t.next().unwrap()),
                inf: string(t.next().unwrap()),
            };
            if k == "own" {
                plain_sys(own)
            } else {
                plain_sys(Fails(own))
            }
        }
        k => panic!("unknown system {k}"),
    }
}

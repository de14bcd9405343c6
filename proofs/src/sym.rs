//! One input source, two back ends.
//!
//! A contract harness draws its inputs with `any`/`int_in`/`f32_in`, states its
//! precondition with `assume` and its postcondition with `assert!`.
//! Under Kani the inputs are symbolic (all values at once); compiled natively the
//! same harness runs on one concrete input vector: a pseudo random one (bounded
//! stand-in / failing input search) or the one in Kani's counterexample (replay).

#[cfg(kani)]
mod imp {
    pub trait Sym: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Sym for T {}

    #[inline(always)]
    pub fn any<T: Sym>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    #[inline(always)]
    pub fn f32_in(lo: f32, hi: f32) -> f32 {
        let v: f32 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    #[inline(always)]
    pub fn usize_in(lo: usize, hi: usize) -> usize {
        let v: usize = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    #[inline(always)]
    pub fn u8_in(lo: u8, hi: u8) -> u8 {
        let v: u8 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    #[inline(always)]
    pub fn i64_in(lo: i64, hi: i64) -> i64 {
        let v: i64 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Rejected;

    pub enum Source {
        Random { state: u64, log: Vec<Vec<u8>> },
        Replay { vals: Vec<Vec<u8>>, pos: usize },
    }

    thread_local! {
        pub static SRC: RefCell<Source> = RefCell::new(Source::Random { state: 1, log: vec![] });
    }

    pub fn seed(s: u64) {
        SRC.with(|r| {
            *r.borrow_mut() = Source::Random {
                state: s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03,
                log: vec![],
            }
        });
    }

    pub fn replay(vals: Vec<Vec<u8>>) {
        SRC.with(|r| *r.borrow_mut() = Source::Replay { vals, pos: 0 });
    }

    pub fn log() -> Vec<Vec<u8>> {
        SRC.with(|r| match &*r.borrow() {
            Source::Random { log, .. } => log.clone(),
            Source::Replay { vals, .. } => vals.clone(),
        })
    }

    fn next(state: &mut u64) -> u64 {
        *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// Draws the little endian bytes of one value.
    fn draw(len: usize, gen: &mut dyn FnMut(&mut dyn FnMut() -> u64) -> Vec<u8>) -> Vec<u8> {
        SRC.with(|r| match &mut *r.borrow_mut() {
            Source::Random { state, log } => {
                let v = {
                    let mut g = || next(state);
                    gen(&mut g)
                };
                log.push(v.clone());
                v
            }
            Source::Replay { vals, pos } => {
                let mut v = vals.get(*pos).cloned().unwrap_or_else(|| vec![0; len]);
                *pos += 1;
                v.resize(len, 0);
                v
            }
        })
    }

    pub trait Sym: Sized + Copy {
        fn any() -> Self;
    }

    macro_rules! int_sym {
        ($($t:ty),*) => { $(
            impl Sym for $t {
                fn any() -> Self {
                    const N: usize = std::mem::size_of::<$t>();
                    let b = draw(N, &mut |g| {
                        let k = g();
                        let r = g();
                        let v: $t = match k % 8 {
                            0 => r as $t,
                            1 => (r % 4) as $t,
                            2 => (r % 16) as $t,
                            3 => (r % 300) as $t,
                            4 => <$t>::MAX.wrapping_sub((r % 4) as $t),
                            5 => <$t>::MIN.wrapping_add((r % 4) as $t),
                            6 => (r % 70000) as $t,
                            _ => ((1u64 << (r % 64)) as $t).wrapping_add((g() % 3) as $t).wrapping_sub(1),
                        };
                        v.to_le_bytes().to_vec()
                    });
                    let mut a = [0u8; N];
                    a.copy_from_slice(&b[..N]);
                    <$t>::from_le_bytes(a)
                }
            }
        )* }
    }
    int_sym!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

    impl Sym for bool {
        fn any() -> Self {
            draw(1, &mut |g| vec![(g() & 1) as u8])[0] & 1 == 1
        }
    }

    impl Sym for f32 {
        fn any() -> Self {
            let b = draw(4, &mut |g| {
                let k = g();
                let r = g();
                let unit = (r >> 40) as f32 / 16777216.0;
                let v: f32 = match k % 12 {
                    0 => f32::from_bits(r as u32),
                    1 => 0.0,
                    2 => 1.0,
                    3 => -1.0,
                    4 => [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN_POSITIVE]
                        [(r % 5) as usize],
                    5 | 6 => unit,
                    7 => -unit,
                    8 => unit * 2.0 - 1.0,
                    9 => (unit - 0.5) * 20.0,
                    10 => (unit - 0.5) * 5000.0,
                    _ => ((r % 41) as f32 - 20.0) * 0.1,
                };
                v.to_le_bytes().to_vec()
            });
            f32::from_le_bytes([b[0], b[1], b[2], b[3]])
        }
    }

    pub fn any<T: Sym>() -> T {
        T::any()
    }

    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected);
        }
    }

    pub fn f32_in(lo: f32, hi: f32) -> f32 {
        let b = draw(4, &mut |g| {
            let k = g() % 12;
            let unit = (g() >> 40) as f64 / 16777215.0;
            let v = match k {
                0 => lo,
                1 => hi,
                2 => 0.0,
                _ => ((lo as f64) + unit * (hi as f64 - lo as f64)) as f32,
            };
            v.max(lo).min(hi).to_le_bytes().to_vec()
        });
        let v = f32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        assume(v >= lo && v <= hi);
        v
    }

    macro_rules! in_fn {
        ($n:ident, $t:ty) => {
            pub fn $n(lo: $t, hi: $t) -> $t {
                const N: usize = std::mem::size_of::<$t>();
                let b = draw(N, &mut |g| {
                    let k = g() % 10;
                    let span = (hi as i128) - (lo as i128) + 1;
                    let v = match k {
                        0 => lo as i128,
                        1 => hi as i128,
                        2 => lo as i128 + (g() as i128 % 4).min(span - 1),
                        3 => hi as i128 - (g() as i128 % 4).min(span - 1),
                        _ => lo as i128 + (g() as i128 % span),
                    };
                    (v as $t).to_le_bytes().to_vec()
                });
                let mut a = [0u8; N];
                a.copy_from_slice(&b[..N]);
                let v = <$t>::from_le_bytes(a);
                assume(v >= lo && v <= hi);
                v
            }
        };
    }
    in_fn!(usize_in, usize);
    in_fn!(u8_in, u8);
    in_fn!(i64_in, i64);
}

pub use imp::*;

/// Reachability marker behind a precondition: must be satisfiable (vacuity guard).
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:expr) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = ($c, $m);
        }
    }};
}

/// Declares contract harnesses. `kani` ones are discharged by the verifier for all
/// inputs and also run natively; `bounded` ones only run natively and are reported as
/// bounded stand-ins.
#[macro_export]
macro_rules! harnesses {
    (@one kani $name:ident ($unw:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[allow(dead_code)]
        pub fn $name() $body
    };
    (@one kani_minisat $name:ident ($unw:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[cfg_attr(kani, kani::solver(minisat))]
        #[allow(dead_code)]
        pub fn $name() $body
    };
    (@one kani_z3 $name:ident ($unw:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[cfg_attr(kani, kani::solver(z3))]
        #[allow(dead_code)]
        pub fn $name() $body
    };
    (@one kissat $name:ident ($unw:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[cfg_attr(kani, kani::solver(kissat))]
        #[allow(dead_code)]
        pub fn $name() $body
    };
    (@one bounded $name:ident ($iters:expr) $body:block) => {
        #[cfg(not(kani))]
        pub fn $name() $body
    };
    (@ent bounded $name:ident $n:expr) => { (stringify!($name), "bounded", $n as usize, $name as fn()) };
    (@ent $kind:ident $name:ident $n:expr) => { (stringify!($name), "kani", 0usize, $name as fn()) };
    ($( $kind:ident $name:ident ($n:expr) $body:block )*) => {
        $( $crate::harnesses!{@one $kind $name ($n) $body} )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, &str, usize, fn())] = &[
            $( $crate::harnesses!{@ent $kind $name $n} ),*
        ];
    };
}

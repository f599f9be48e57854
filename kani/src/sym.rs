//! Symbolic values and checks, with their concrete replay counterparts.

#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    thread_local! {
        static IN: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0));
        pub static REACHED: RefCell<bool> = RefCell::new(false);
    }
    /// The model's values, in the order in which the harness asks for them.
    pub fn load(v: Vec<u8>) {
        IN.with(|c| *c.borrow_mut() = (v, 0));
    }
    pub fn take(n: usize) -> Vec<u8> {
        IN.with(|c| {
            let mut c = c.borrow_mut();
            let mut out = Vec::with_capacity(n);
            for _ in 0..n {
                let p = c.1;
                // A value the model left open is free: use zero.
                out.push(c.0.get(p).copied().unwrap_or(0));
                c.1 += 1;
            }
            out
        })
    }
    pub fn assume_failed() -> ! {
        // The values do not satisfy the harness's assumptions: not a counterexample.
        std::process::exit(77);
    }
}

macro_rules! any_int {
    ($($f:ident $t:ty;)*) => {$(
        #[cfg(kani)]
        #[inline(never)]
        pub fn $f() -> $t { kani::any() }
        #[cfg(not(kani))]
        pub fn $f() -> $t {
            let v = native::take(core::mem::size_of::<$t>());
            <$t>::from_le_bytes(v.try_into().unwrap())
        }
    )*};
}
any_int! { any_u8 u8; any_u16 u16; any_u32 u32; any_u64 u64; any_usize usize; }

pub fn any_bool() -> bool {
    let b = any_u8();
    assume(b < 2);
    b == 1
}

#[cfg(kani)]
pub fn any_bytes<const N: usize>() -> [u8; N] {
    kani::any()
}
#[cfg(not(kani))]
pub fn any_bytes<const N: usize>() -> [u8; N] {
    native::take(N).try_into().unwrap()
}

/// Any character.
pub fn any_char() -> char {
    let v = any_u32();
    match char::from_u32(v) {
        Some(c) => c,
        None => {
            assume(false);
            'a'
        }
    }
}

/// A value in `lo..=hi`.
pub fn any_in(lo: usize, hi: usize) -> usize {
    let v = any_usize();
    assume(v >= lo && v <= hi);
    v
}

#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        native::assume_failed();
    }
}

/// The property: must hold for every value.
#[macro_export]
macro_rules! chk {
    ($c:expr, $m:literal) => {{
        let __c: bool = $c;
        #[cfg(kani)]
        kani::assert(__c, concat!("VIOL ", $m));
        #[cfg(not(kani))]
        if !__c {
            panic!(concat!("VIOL ", $m));
        }
    }};
}

/// Reachability witness: the solver must find a run that gets here.
#[macro_export]
macro_rules! reach {
    () => {{
        #[cfg(kani)]
        kani::cover!(true, "REACH");
        #[cfg(not(kani))]
        $crate::sym::native::REACHED.with(|r| *r.borrow_mut() = true);
    }};
}

/// The call must be refused by a panic: in a harness whose name starts with `rej_`, panics of the
/// code under test are what is wanted, and getting past the call is the violation.
#[macro_export]
macro_rules! refused {
    ($e:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::cover!(true, "REACH");
            let _keep = $e;
            kani::assert(false, concat!("VIOL accepted: ", $m));
        }
        #[cfg(not(kani))]
        {
            $crate::sym::native::REACHED.with(|r| *r.borrow_mut() = true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _keep = $e;
            }));
            if r.is_ok() {
                panic!(concat!("VIOL accepted: ", $m));
            }
        }
    }};
}

/// Declares harnesses: Kani proofs, and entries of the replay table.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* fn $name:ident [$u:literal] $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            $(#[$a])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

/// `body` with `n` replaced by a concrete value on each path, for a symbolic `n` in `0..=max`: keeps
/// shapes concrete on every path while the solver still covers all of them.
#[inline(always)]
pub fn split<F: FnMut(usize)>(n: usize, max: usize, mut body: F) {
    let mut k = 0;
    while k <= max {
        if n == k {
            body(k);
        }
        k += 1;
    }
}

/// Contents equal, compared at one arbitrary index (which covers all of them).
#[inline(always)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.is_empty() {
        return true;
    }
    #[cfg(kani)]
    {
        let i: usize = kani::any_where(|i: &usize| *i < a.len());
        a[i] == b[i]
    }
    #[cfg(not(kani))]
    {
        // consume the index the model chose, then compare everything
        let _ = native::take(core::mem::size_of::<usize>());
        a == b
    }
}

/// Contents equal, compared byte by byte.
#[inline(always)]
pub fn same_all(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut ok = true;
    while i < a.len() {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}

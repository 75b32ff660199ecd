//! The harness side of the engine's interface.
#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn symex_byte() -> u8;
        fn symex_choice(n: usize) -> u8;
        fn symex_byte_in(p: *const u8, n: usize) -> u8;
        fn symex_assume(c: bool);
        fn symex_check(c: bool, p: *const u8, n: usize);
        fn symex_fail(p: *const u8, n: usize) -> !;
        fn symex_cover(p: *const u8, n: usize);
        fn symex_observe(p: *const u8, n: usize);
        fn symex_trace(p: *const u8, n: usize);
        fn symex_conc(x: usize) -> usize;
    }
    /// A fresh unconstrained byte.
    #[inline(never)]
    pub fn byte() -> u8 {
        unsafe { symex_byte() }
    }
    /// A fresh number below `n` (n <= 256).
    #[inline(never)]
    pub fn choice(n: usize) -> usize {
        unsafe { symex_choice(n) as usize }
    }
    /// A fresh byte of the given set.
    #[inline(never)]
    pub fn byte_in(s: &[u8]) -> u8 {
        unsafe { symex_byte_in(s.as_ptr(), s.len()) }
    }
    #[inline(never)]
    pub fn assume(c: bool) {
        unsafe { symex_assume(c) }
    }
    #[inline(never)]
    pub fn check(c: bool, l: &str) {
        unsafe { symex_check(c, l.as_ptr(), l.len()) }
    }
    #[inline(never)]
    pub fn fail(l: &str) -> ! {
        unsafe { symex_fail(l.as_ptr(), l.len()) }
    }
    #[inline(never)]
    pub fn cover(l: &str) {
        unsafe { symex_cover(l.as_ptr(), l.len()) }
    }
    #[inline(never)]
    pub fn observe(b: &[u8]) {
        unsafe { symex_observe(b.as_ptr(), b.len()) }
    }
    #[inline(never)]
    pub fn trace(s: &str) {
        unsafe { symex_trace(s.as_ptr(), s.len()) }
    }
    /// Forks over the values of `x`.
    #[inline(never)]
    pub fn conc(x: usize) -> usize {
        unsafe { symex_conc(x) }
    }
}

#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static IN: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
        static OBS: RefCell<Vec<u8>> = RefCell::new(vec![]);
    }
    pub fn set_input(b: Vec<u8>) {
        IN.with(|i| *i.borrow_mut() = (b, 0));
    }
    pub fn observed() -> Vec<u8> {
        OBS.with(|o| o.borrow().clone())
    }
    fn next(d: u8) -> u8 {
        IN.with(|i| {
            let mut i = i.borrow_mut();
            let k = i.1;
            i.1 += 1;
            i.0.get(k).copied().unwrap_or(d)
        })
    }
    pub fn byte() -> u8 {
        next(0)
    }
    pub fn choice(n: usize) -> usize {
        let k = next(0) as usize;
        assert!(k < n, "replay: choice out of range");
        k
    }
    pub fn byte_in(s: &[u8]) -> u8 {
        let k = next(*s.iter().min().unwrap());
        assert!(s.contains(&k), "replay: byte out of set");
        k
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME-FAILED");
            std::process::exit(5);
        }
    }
    pub fn check(c: bool, l: &str) {
        if !c {
            fail(l)
        }
    }
    pub fn fail(l: &str) -> ! {
        println!("REPLAY-VIOLATION {l}");
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        std::process::exit(101)
    }
    pub fn cover(_: &str) {}
    pub fn observe(b: &[u8]) {
        OBS.with(|o| o.borrow_mut().extend_from_slice(b));
    }
    pub fn trace(s: &str) {
        println!("{s}");
    }
    pub fn conc(x: usize) -> usize {
        x
    }
}
pub use imp::*;

//! What the tools share: sharding, the watchdog, panics as observations.
use model::report::Report;
use model::watch::{self, Watch};
use std::sync::Arc;

pub fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.into())
}
pub fn num(k: &str, d: u64) -> u64 {
    env(k, "").parse().unwrap_or(d)
}
pub struct Ctx {
    pub rep: Report,
    pub watch: Arc<Watch>,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    /// How much work: 1 is quick.
    pub scale: u64,
    pub seen: std::collections::HashSet<u64>,
}
impl Ctx {
    /// Run one observed call. A panic is `Err`.
    pub fn call<T>(&mut self, case: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
        self.watch.enter(case);
        let r = watch::guard(f);
        self.watch.leave();
        r
    }
    /// Indices of this shard.
    pub fn mine(&self, n: u64) -> impl Iterator<Item = u64> {
        let (s, k) = (self.shard, self.shards);
        (0..n).filter(move |i| i % k == s)
    }
    /// Count a distinct non-trivial case.
    pub fn nontrivial(&mut self, sig: &str) {
        if self.seen.insert(model::report::hash(sig)) {
            self.rep.count("distinct_nontrivial", 1);
        }
    }
}
/// `facets` are the names in argv.
pub fn main_(f: impl FnOnce(&mut Ctx, &[String]) + Send + 'static) {
    watch::install_hook();
    let w = Watch::new();
    w.spawn(num("VERIF_HANG_MS", 20000), |case| {
        let mut r = Report::default();
        r.violation("hang", "a call did not return in 20 s", &[("case", &case)]);
        r.finish();
        std::process::exit(0);
    });
    let h = std::thread::Builder::new()
        // Long literals recurse once per escape: far from any limit.
        .stack_size(256 << 20)
        .spawn(move || {
            let mut c = Ctx { rep: Report::default(), watch: w, seed: num("VERIF_GEN_SEED", 1), shard: num("VERIF_SHARD", 0), shards: num("VERIF_SHARDS", 1), scale: num("VERIF_SCALE", 1), seen: Default::default() };
            let a: Vec<String> = std::env::args().skip(1).collect();
            if let Err(m) = watch::guard(|| f(&mut c, &a)) {
                eprintln!("the monitor panicked: {m}");
                std::process::exit(3);
            }
            c.rep
        })
        .expect("spawn");
    match h.join() {
        Ok(r) => r.finish(),
        Err(_) => {
            eprintln!("monitor thread panicked");
            std::process::exit(3);
        }
    }
}
/// Hash of a value.
pub fn h<T: std::hash::Hash>(x: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    std::hash::Hasher::finish(&s)
}
/// A violation unless the condition holds; ends the function.
#[macro_export]
macro_rules! chk {
    ($c:expr, $cond:expr, $key:expr, $what:expr, $($n:expr => $v:expr),*) => {
        if !$cond {
            $c.rep.violation($key, $what, &[$(($n, &format!("{:?}", $v))),*]);
            return;
        }
    };
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, to: *mut Timespec) -> i32;
}
/// What this thread has used of a processor: other load does not count.
pub fn cpu_time() -> std::time::Duration {
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0);
    std::time::Duration::new(t.sec as u64, t.nsec as u32)
}

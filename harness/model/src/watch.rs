//! Watchdog for calls that do not return, and capture of panic messages.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}
/// Run, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
pub struct Watch {
    t0: Instant,
    /// Milliseconds since `t0` at which the current call began, plus one; 0 when idle.
    began: AtomicU64,
    case: Mutex<String>,
    trace: Option<std::path::PathBuf>,
}
impl Watch {
    pub fn new() -> std::sync::Arc<Watch> {
        let trace = std::env::var("VERIF_TRACE").ok().map(Into::into);
        std::sync::Arc::new(Watch { t0: Instant::now(), began: AtomicU64::new(0), case: Mutex::new(String::new()), trace })
    }
    pub fn enter(&self, case: impl FnOnce() -> String) {
        let c = case();
        if let Some(p) = &self.trace {
            let _ = std::fs::write(p, &c);
        }
        *self.case.lock().unwrap() = c;
        self.began.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    pub fn leave(&self) {
        self.began.store(0, Ordering::SeqCst);
    }
    /// Calls `f(case)` once when a call takes longer than `limit_ms`.
    pub fn spawn(self: &std::sync::Arc<Self>, limit_ms: u64, f: impl FnOnce(String) + Send + 'static) {
        let w = self.clone();
        std::thread::spawn(move || {
            let mut f = Some(f);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(250));
                let b = w.began.load(Ordering::SeqCst);
                let now = w.t0.elapsed().as_millis() as u64;
                if b != 0 && now > b + limit_ms {
                    let c = w.case.lock().unwrap().clone();
                    if let Some(f) = f.take() {
                        f(c)
                    }
                }
            }
        });
    }
}

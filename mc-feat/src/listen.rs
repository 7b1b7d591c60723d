//! A subscriber that looks at everything it is given and keeps nothing.
use std::cell::RefCell;
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tracing::field::{Field, Visit};
use tracing::level_filters::LevelFilter;
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

thread_local!(static BUF: RefCell<String> = const { RefCell::new(String::new()) });

struct Look;
impl Visit for Look {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        BUF.with(|b| {
            // what is being formatted may itself be traced
            let mut s = b.take();
            s.clear();
            let _ = write!(s, "{f}={v:?}");
            b.replace(s);
        })
    }
}

pub struct Listener {
    level: LevelFilter,
    next: AtomicU64,
}

pub fn listener(level: &str) -> Listener {
    Listener { level: level.parse().unwrap(), next: AtomicU64::new(1) }
}

impl Subscriber for Listener {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        *m.level() <= self.level
    }
    fn max_level_hint(&self) -> Option<LevelFilter> {
        Some(self.level)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Look);
        Id::from_u64(self.next.fetch_add(1, Relaxed))
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Look);
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Look);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

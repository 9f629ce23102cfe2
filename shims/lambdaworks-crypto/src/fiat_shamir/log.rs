//! Event log of the transcripts of the current thread (monitor hook; off by default).
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    /// A transcript with this serial number was created.
    New(u64),
    Append(u64, Vec<u8>),
    Challenge(u64, [u8; 32]),
}

thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
    static NEXT: RefCell<u64> = const { RefCell::new(0) };
}

/// Starts recording (dropping what was recorded before).
pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
}

/// Stops recording and returns the events.
pub fn take() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}

pub(crate) fn fresh_id() -> u64 {
    NEXT.with(|n| {
        let mut n = n.borrow_mut();
        *n += 1;
        *n
    })
}

pub(crate) fn record(e: impl FnOnce() -> Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(e());
        }
    })
}

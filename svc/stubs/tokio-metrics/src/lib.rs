//! A stand-in for `tokio-metrics`: tasks are counted, not timed.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Debug, Clone, Copy, Default)]
pub struct TaskMetrics {
    pub instrumented_count: u64,
    pub dropped_count: u64,
    pub first_poll_count: u64,
    pub total_first_poll_delay: Duration,
    pub total_idled_count: u64,
    pub total_idle_duration: Duration,
    pub total_scheduled_count: u64,
    pub total_scheduled_duration: Duration,
    pub total_poll_count: u64,
    pub total_poll_duration: Duration,
    pub total_fast_poll_count: u64,
    pub total_fast_poll_duration: Duration,
    pub total_slow_poll_count: u64,
    pub total_slow_poll_duration: Duration,
    pub total_short_delay_count: u64,
    pub total_long_delay_count: u64,
    pub total_short_delay_duration: Duration,
    pub total_long_delay_duration: Duration,
}

#[derive(Debug, Default)]
struct Counts {
    instrumented: AtomicU64,
    dropped: AtomicU64,
    polls: AtomicU64,
}

#[derive(Debug, Clone, Default)]
pub struct TaskMonitor(Arc<Counts>);
impl TaskMonitor {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn instrument<F>(&self, future: F) -> Instrumented<F> {
        self.0.instrumented.fetch_add(1, SeqCst);
        Instrumented { future, counts: self.0.clone() }
    }
    pub fn cumulative(&self) -> TaskMetrics {
        TaskMetrics {
            instrumented_count: self.0.instrumented.load(SeqCst),
            dropped_count: self.0.dropped.load(SeqCst),
            total_poll_count: self.0.polls.load(SeqCst),
            ..Default::default()
        }
    }
    pub fn intervals(&self) -> impl Iterator<Item = TaskMetrics> {
        let this = self.clone();
        std::iter::repeat_with(move || this.cumulative())
    }
}

#[derive(Debug)]
pub struct Instrumented<F> {
    future: F,
    counts: Arc<Counts>,
}
impl<F> Drop for Instrumented<F> {
    fn drop(&mut self) {
        self.counts.dropped.fetch_add(1, SeqCst);
    }
}
impl<F: Future> Future for Instrumented<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.counts.polls.fetch_add(1, SeqCst);
        // the future is structurally pinned, like in the real crate
        unsafe { self.map_unchecked_mut(|s| &mut s.future) }.poll(cx)
    }
}

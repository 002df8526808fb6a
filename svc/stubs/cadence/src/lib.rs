//! A stand-in for `cadence`: the sinks hand every metric line to the monitor.
use std::io;
use std::net::{ToSocketAddrs, UdpSocket};
use std::sync::Mutex;

static LINES: Mutex<Vec<String>> = Mutex::new(vec![]);

pub mod monitor {
    /// The metric lines emitted since the last call.
    pub fn take_lines() -> Vec<String> {
        std::mem::take(&mut super::LINES.lock().unwrap())
    }
}

pub trait MetricSink {
    fn emit(&self, metric: &str) -> io::Result<usize>;
    fn flush(&self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct BufferedUdpMetricSink;
impl BufferedUdpMetricSink {
    pub fn from<A: ToSocketAddrs>(_addr: A, _socket: UdpSocket) -> io::Result<Self> {
        Ok(Self)
    }
}
impl MetricSink for BufferedUdpMetricSink {
    fn emit(&self, metric: &str) -> io::Result<usize> {
        LINES.lock().unwrap().push(metric.to_string());
        Ok(metric.len())
    }
}

pub struct QueuingMetricSink(Box<dyn MetricSink + Send + Sync>);
impl std::fmt::Debug for QueuingMetricSink {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("QueuingMetricSink")
    }
}
impl QueuingMetricSink {
    pub fn from<T: MetricSink + Send + Sync + 'static>(sink: T) -> Self {
        Self(Box::new(sink))
    }
}
impl MetricSink for QueuingMetricSink {
    fn emit(&self, metric: &str) -> io::Result<usize> {
        self.0.emit(metric)
    }
}

#[derive(Debug)]
pub struct StatsdClient;
pub struct StatsdClientBuilder;
impl StatsdClient {
    pub fn builder<T: MetricSink + Send + Sync + 'static>(_prefix: &str, _sink: T) -> StatsdClientBuilder {
        StatsdClientBuilder
    }
}
impl StatsdClientBuilder {
    pub fn with_tag<K: ToString, V: ToString>(self, _k: K, _v: V) -> Self {
        self
    }
    pub fn build(self) -> StatsdClient {
        StatsdClient
    }
}

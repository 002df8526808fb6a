//! The monitor side of the stand-in: name resolution, routing and the event log.
use std::collections::HashMap;
use std::net::{IpAddr, SocketAddr};
use std::sync::{Mutex, OnceLock};

#[derive(Debug, Clone)]
pub enum Event {
    /// All addresses of the host were rejected by the client's `ip_filter`.
    Filtered { host: String, ips: Vec<IpAddr> },
    /// A connection attempt to an address.
    Connect { host: String, ip: IpAddr, port: u16, https: bool, accept_invalid_certs: bool },
    /// A request is about to be written.
    Request { method: String, url: String, headers: Vec<(String, String)> },
    /// A redirect is being followed.
    Redirect { from: String, to: String, status: u16 },
}

#[derive(Default)]
struct State {
    names: HashMap<String, Vec<IpAddr>>,
    routes: HashMap<(IpAddr, u16), SocketAddr>,
    ip_routes: HashMap<IpAddr, SocketAddr>,
    bad_cert: std::collections::HashSet<String>,
    fallback: Option<SocketAddr>,
    log: Option<Vec<Event>>,
}

fn state() -> &'static Mutex<State> {
    static S: OnceLock<Mutex<State>> = OnceLock::new();
    S.get_or_init(Default::default)
}

pub fn set_name(host: &str, ips: Vec<IpAddr>) {
    state().lock().unwrap().names.insert(host.to_ascii_lowercase(), ips);
}
/// Connections to `ip:port` go to `addr` instead.
pub fn set_route(ip: IpAddr, port: u16, addr: SocketAddr) {
    state().lock().unwrap().routes.insert((ip, port), addr);
}
/// Connections to any port of `ip` go to `addr` instead.
pub fn set_ip_route(ip: IpAddr, addr: SocketAddr) {
    state().lock().unwrap().ip_routes.insert(ip, addr);
}
/// The host presents a certificate that does not verify.
pub fn set_bad_cert(host: &str) {
    state().lock().unwrap().bad_cert.insert(host.to_string());
}
/// Connections to addresses which are not loopback and have no route go here.
pub fn set_fallback(addr: SocketAddr) {
    state().lock().unwrap().fallback = Some(addr);
}
pub fn start_log() {
    state().lock().unwrap().log = Some(vec![]);
}
pub fn take_log() -> Vec<Event> {
    state().lock().unwrap().log.replace(vec![]).unwrap_or_default()
}

pub(crate) fn record(e: Event) {
    if let Some(l) = &mut state().lock().unwrap().log {
        l.push(e);
    }
}
pub(crate) fn has_bad_cert(host: &str) -> bool {
    state().lock().unwrap().bad_cert.contains(host)
}
pub(crate) fn resolve(host: &str) -> Vec<IpAddr> {
    let host = host.trim_end_matches('.').to_ascii_lowercase();
    if host == "localhost" {
        return vec!["127.0.0.1".parse().unwrap()];
    }
    state().lock().unwrap().names.get(&host).cloned().unwrap_or_default()
}
/// Where a connection to `ip:port` really goes; never outside the loopback network.
pub(crate) fn connector(ip: IpAddr, port: u16) -> Option<SocketAddr> {
    let s = state().lock().unwrap();
    if let Some(a) = s.routes.get(&(ip, port)).or_else(|| s.ip_routes.get(&ip)) {
        return Some(*a);
    }
    if ip.is_loopback() {
        return Some(SocketAddr::new(ip, port));
    }
    s.fallback
}

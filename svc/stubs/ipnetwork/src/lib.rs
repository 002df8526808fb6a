//! A stand-in for `ipnetwork`: IPv4 networks in CIDR notation.
use std::net::Ipv4Addr;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Ipv4Network {
    addr: Ipv4Addr,
    prefix: u8,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct IpNetworkError(String);
impl std::fmt::Display for IpNetworkError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for IpNetworkError {}
impl Ipv4Network {
    fn mask(&self) -> u32 {
        u32::MAX.checked_shl(32 - self.prefix as u32).unwrap_or(0)
    }
    pub fn contains(&self, ip: Ipv4Addr) -> bool {
        u32::from(ip) & self.mask() == u32::from(self.addr) & self.mask()
    }
}
impl std::str::FromStr for Ipv4Network {
    type Err = IpNetworkError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let err = || IpNetworkError(format!("invalid network: {s}"));
        let (a, p) = s.split_once('/').unwrap_or((s, "32"));
        let prefix: u8 = p.parse().map_err(|_| err())?;
        if prefix > 32 {
            return Err(err());
        }
        Ok(Ipv4Network { addr: a.parse().map_err(|_| err())?, prefix })
    }
}

//! Stands in for the gateway: records what it is asked and refuses the ports in REFUSE.
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct Ipv4Cidr;

#[derive(Debug)]
pub enum Error { NoMatchingGateway }

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no matching gateway") }
}

impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PortMappingProtocol { TCP, UDP }

#[derive(Debug)]
pub struct UpnpConfig {
    pub address: Option<Ipv4Cidr>,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub comment: String
}

/// (opened or closed, port, protocol, duration)
pub static LOG: Mutex<Vec<(&'static str, u16, PortMappingProtocol, u32)>> = Mutex::new(Vec::new());
pub static REFUSE: Mutex<Vec<(&'static str, u16, PortMappingProtocol)>> = Mutex::new(Vec::new());

fn ask(what: &'static str, config: UpnpConfig) -> Result<(), Error> {
    LOG.lock().unwrap().push((what, config.port, config.protocol, config.duration));
    if REFUSE.lock().unwrap().contains(&(what, config.port, config.protocol)) { Err(Error::NoMatchingGateway) } else { Ok(()) }
}

pub fn add_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| ask("open", config))
}

pub fn delete_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| ask("close", config))
}

//! Stand-in for the git dependency of sip-hep, which is not available here:
//! the names sip-hep uses, with packets handed to the sink unencoded.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HepProtocol {
    Sip,
    Rtp,
    Rtcp,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IpProto {
    Udp,
    Tcp,
    Sctp,
}
#[derive(Clone, Debug)]
pub struct HepPacket {
    pub capture_id: u32,
    pub capture_password: Option<String>,
    pub protocol: HepProtocol,
    pub transport: IpProto,
    pub src: std::net::SocketAddr,
    pub dst: std::net::SocketAddr,
    pub timestamp: std::time::SystemTime,
    pub correlation_id: Option<String>,
    pub payload: Vec<u8>,
}
pub trait HepSink: Send + Sync + 'static {
    fn send(&self, packet: HepPacket);
}

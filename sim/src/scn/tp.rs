//! The transports under test, behind one constructor.
use crate::os;
use mpc_net::config::{Address, NetworkConfig, NetworkConfigBuilder, NetworkParty, TlsConfig};
use mpc_net::{tcp_session, tcp_session_blocking, Network};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use std::sync::{Arc, OnceLock};
use std::time::Duration;

pub const LOCAL: i64 = 0;
pub const TCP: i64 = 1;
pub const TLS: i64 = 2;
pub const QUIC: i64 = 3;
pub const SESS: i64 = 4;
pub const SESSB: i64 = 5;
pub fn name(t: i64) -> &'static str { ["local", "tcp", "tls", "quic", "session", "session-blocking"][t as usize] }
pub const MAXP: usize = 8;

static CERTS: OnceLock<(Vec<CertificateDer<'static>>, Vec<Vec<u8>>)> = OnceLock::new();

#[derive(Debug)]
struct SimRandom;
impl rustls::crypto::SecureRandom for SimRandom {
    fn fill(&self, b: &mut [u8]) -> Result<(), rustls::crypto::GetRandomFailed> { unsafe { os::calls::getrandom(b.as_mut_ptr() as *mut _, b.len(), 0); } Ok(()) }
}
pub fn prepare() {
    let mut p = rustls::crypto::aws_lc_rs::default_provider();
    p.secure_random = &SimRandom;
    let _ = p.install_default();
    let mut certs = vec![];
    let mut keys = vec![];
    for i in 0..MAXP {
        let kp = rcgen::KeyPair::generate_for(&rcgen::PKCS_ED25519).unwrap();
        let params = rcgen::CertificateParams::new(vec![format!("p{i}.sim"), "localhost".to_string()]).unwrap();
        let c = params.self_signed(&kp).unwrap();
        certs.push(c.der().clone());
        keys.push(kp.serialize_der());
    }
    let _ = CERTS.set((certs, keys));
}

pub fn certs(n: usize) -> Vec<CertificateDer<'static>> { CERTS.get().unwrap().0[..n].to_vec() }

#[derive(Clone, Debug)]
pub struct Opt {
    pub tp: i64, pub n: usize, pub nets: usize, pub timeout: Option<u64>, pub flush_timeout: Option<u64>, pub connect_timeout: Option<u64>, pub max_frame: Option<usize>,
    pub idle: u64, pub v6: bool,
    /// Order in which the configuration lists the parties (seed of a permutation, 0 = ascending).
    pub perm: u64, pub port: u16,
}
impl Opt { pub fn new(tp: i64, n: usize) -> Opt { Opt { tp, n, nets: 1, timeout: None, flush_timeout: None, connect_timeout: None, max_frame: None, idle: 30_000_000_000, v6: false, perm: 0, port: 10_000 } } }
fn dur(x: u64) -> Duration { Duration::from_nanos(x) }
pub fn config(o: &Opt, id: usize) -> NetworkConfig {
    let mut order: Vec<usize> = (0..o.n).collect();
    if o.perm != 0 { os::rng::Rng::new(o.perm).shuffle(&mut order); }
    let parties = order.into_iter().map(|i| NetworkParty::new(i, Address::new(format!("p{i}.sim"), o.port + i as u16))).collect();
    let bind = if o.v6 { format!("[::]:{}", o.port + id as u16) } else { format!("0.0.0.0:{}", o.port + id as u16) };
    let mut b = NetworkConfigBuilder::new(id, bind.parse().unwrap(), parties);
    if let Some(t) = o.timeout { b = b.timeout(dur(t)); }
    if let Some(t) = o.flush_timeout { b = b.flush_timeout(dur(t)); }
    if let Some(t) = o.connect_timeout { b = b.connect_timeout(dur(t)); }
    if let Some(m) = o.max_frame { b = b.max_frame_length(m); }
    if o.tp == TLS || o.tp == QUIC {
        let (c, k) = CERTS.get().unwrap();
        b = b.tls_config(TlsConfig::new(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(k[id].clone())), c[..o.n].to_vec()));
    }
    b.build()
}
fn addrs(o: &Opt) -> Vec<String> { (0..o.n).map(|i| format!("p{i}.sim:{}", o.port + i as u16)).collect() }
pub fn sess_cfg(o: &Opt, id: usize) -> tcp_session::NetworkConfig {
    tcp_session::NetworkConfig { party_id: id, bind_addr: format!("0.0.0.0:{}", o.port + id as u16).parse().unwrap(), node_addrs: addrs(o), init_session_timeout: o.connect_timeout.map(dur), timeout: o.timeout.map(dur),
        flush_timeout: o.flush_timeout.map(dur), time_to_idle: dur(o.idle), max_frame_length: o.max_frame.unwrap_or(mpc_net::DEFAULT_MAX_FRAME_LENGTH) }
}
pub fn sessb_cfg(o: &Opt, id: usize) -> tcp_session_blocking::NetworkConfig {
    tcp_session_blocking::NetworkConfig { party_id: id, bind_addr: format!("0.0.0.0:{}", o.port + id as u16).parse().unwrap(), node_addrs: addrs(o), init_session_timeout: o.connect_timeout.map(dur), timeout: o.timeout.map(dur),
        flush_timeout: o.flush_timeout.map(dur), time_to_idle: dur(o.idle), max_frame_length: o.max_frame.unwrap_or(mpc_net::DEFAULT_MAX_FRAME_LENGTH) }
}

pub type Net = Arc<dyn Network>;
/// A party's session handler, of either kind.
pub enum Handler { A(Arc<tokio::runtime::Runtime>, tcp_session::TcpNetworkHandler), B(tcp_session_blocking::TcpNetworkHandler) }
impl Handler {
    pub fn new(o: &Opt, id: usize) -> eyre::Result<Handler> {
        if o.tp == SESS {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()?;
            let h = rt.block_on(tcp_session::TcpNetworkHandler::new(sess_cfg(o, id)))?;
            Ok(Handler::A(Arc::new(rt), h))
        } else { Ok(Handler::B(tcp_session_blocking::TcpNetworkHandler::new(sessb_cfg(o, id))?)) }
    }
    pub fn share(&self) -> Handler { match self { Handler::A(r, h) => Handler::A(r.clone(), h.clone()), Handler::B(h) => Handler::B(h.clone()) } }
    /// `limit` bounds the asynchronous set-up from outside, as its documentation asks callers to.
    pub fn init(&self, id: u128, limit: Option<u64>) -> eyre::Result<Net> {
        match self {
            Handler::A(rt, h) => {
                let net = rt.block_on(async { match limit { Some(l) => tokio::time::timeout(dur(l), h.init_session(id)).await.map_err(|_| eyre::eyre!("session set-up timed out"))?, None => h.init_session(id).await } })?;
                Ok(Arc::new(net))
            }
            Handler::B(h) => Ok(Arc::new(h.init_session(id)?)),
        }
    }
}
/// What a party holds on to while it uses its networks.
pub struct Env { pub nets: Vec<Net>, pub handler: Option<Handler> }

/// In-process networks for all parties, `o.nets` of them each.
pub fn locals(o: &Opt) -> Vec<Vec<Net>> {
    let mut v: Vec<Vec<Net>> = (0..o.n).map(|_| vec![]).collect();
    for _ in 0..o.nets { for (p, l) in mpc_net::local::LocalNetwork::new_with_timeout(o.n, o.timeout.map(dur)).into_iter().enumerate() { v[p].push(Arc::new(l)); } }
    v
}
/// Start every party of `who` as a process of its own after its delay, set its networks up and run `body`.
pub fn parties(o: &Opt, prop: &'static str, who: &[usize], starts: &[u64], body: impl Fn(usize, Env) + Send + Sync + 'static) -> Vec<usize> {
    let body = Arc::new(body);
    let mut loc = if o.tp == LOCAL { locals(o) } else { vec![] };
    let mut ids = vec![];
    for &p in who {
        let (o, body) = (o.clone(), body.clone());
        let local = if o.tp == LOCAL { Some(std::mem::take(&mut loc[p])) } else { None };
        let start = starts.get(p).copied().unwrap_or(0);
        ids.push(super::go(p, true, format!("P{p}"), move || {
            if start > 0 { os::sleep(start); }
            let env = match local { Some(nets) => Env { nets, handler: None }, None => match build(&o, p) { Ok(e) => e, Err(e) => { super::viol(prop, "setup", format!("P{p} could not set up over {}: {e:#}", name(o.tp))); return; } } };
            body(p, env);
        }));
    }
    ids
}
/// Build the party's networks (retrying session set-up while peers are not up yet).
pub fn build(o: &Opt, id: usize) -> eyre::Result<Env> {
    let v: Vec<Net> = match o.tp {
        TCP => { let c = config(o, id); match o.nets { 1 => vec![Arc::new(mpc_net::tcp::TcpNetwork::new(c)?) as Net], 2 => { let [a, b] = mpc_net::tcp::TcpNetwork::networks::<2>(c)?; vec![Arc::new(a) as Net, Arc::new(b)] } 8 => mpc_net::tcp::TcpNetwork::networks::<8>(c)?.into_iter().map(|x| Arc::new(x) as Net).collect(), _ => { let [a, b, d] = mpc_net::tcp::TcpNetwork::networks::<3>(c)?; vec![Arc::new(a) as Net, Arc::new(b), Arc::new(d)] } } }
        TLS => { let c = config(o, id); match o.nets { 1 => vec![Arc::new(mpc_net::tls::TlsNetwork::new(c)?) as Net], 2 => { let [a, b] = mpc_net::tls::TlsNetwork::networks::<2>(c)?; vec![Arc::new(a) as Net, Arc::new(b)] } _ => { let [a, b, d] = mpc_net::tls::TlsNetwork::networks::<3>(c)?; vec![Arc::new(a) as Net, Arc::new(b), Arc::new(d)] } } }
        QUIC => {
            let first = mpc_net::quic::QuicNetwork::new(config(o, id))?;
            let mut forks: Vec<Net> = vec![];
            for _ in 1..o.nets { forks.push(Arc::new(first.fork()?)); }
            let mut v: Vec<Net> = vec![Arc::new(first)];
            v.extend(forks);
            v
        }
        SESS | SESSB => {
            let h = Handler::new(o, id)?;
            // The session transports expect every listener to be up: parties meet first.
            super::gate(0x5e55_0000, o.n, 600_000_000_000);
            let mut v = vec![];
            for k in 0..o.nets { v.push(h.init(1000 + k as u128, o.connect_timeout)?); }
            return Ok(Env { nets: v, handler: Some(h) });
        }
        _ => unreachable!(),
    };
    Ok(Env { nets: v, handler: None })
}

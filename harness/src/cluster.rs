//! In-process clusters: workers behind in-memory duplex pipes or real TCP sockets, with recording
//! resolvers on the coordinator and on every worker; workers can be killed and restarted.
use crate::leaf::*;
use crate::mon::*;
use async_trait::async_trait;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
use datafusion::execution::SessionStateBuilder;
use datafusion::execution::memory_pool::{MemoryConsumer, MemoryLimit, MemoryPool, MemoryReservation};
use datafusion::execution::runtime_env::{RuntimeEnv, RuntimeEnvBuilder};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use hyper_util::rt::TokioIo;
use std::collections::HashMap;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, DuplexStream, ReadBuf};
use tokio::sync::mpsc;
use tonic::transport::{Endpoint, Server};
use url::Url;

/// Memory pool that never refuses, tracks balance per consumer name, peak and underflow.
#[derive(Debug, Default)]
pub struct TrackPool {
    pub used: AtomicI64,
    pub peak: AtomicI64,
    pub underflow: AtomicBool,
    pub conn_used: AtomicI64,
    pub conn_peak: AtomicI64,
    pub conn_consumers: AtomicI64,
    pub names: Mutex<HashMap<String, i64>>,
    /// per reservation holder of the crate's own: name, used, peak, biggest single step, sum of steps
    pub holders: Mutex<HashMap<usize, (String, i64, i64, i64, i64)>>,
}
fn is_conn(name: &str) -> bool {
    name.to_lowercase().contains("worker")
}
impl TrackPool {
    fn track(&self, c: &MemoryConsumer, d: i64) {
        if is_conn(c.name()) || c.name() == "NetworkBoundary" {
            let mut h = self.holders.lock().unwrap();
            let e = h.entry(c.id()).or_insert_with(|| (c.name().to_string(), 0, 0, 0, 0));
            e.1 += d;
            e.2 = e.2.max(e.1);
            e.3 = e.3.max(d);
            e.4 += d.max(0);
        }
        self.add(c.name(), d)
    }
    fn add(&self, name: &str, d: i64) {
        let v = self.used.fetch_add(d, Ordering::SeqCst) + d;
        self.peak.fetch_max(v, Ordering::SeqCst);
        if v < 0 {
            self.underflow.store(true, Ordering::SeqCst);
        }
        if is_conn(name) {
            let v = self.conn_used.fetch_add(d, Ordering::SeqCst) + d;
            self.conn_peak.fetch_max(v, Ordering::SeqCst);
        }
        *self.names.lock().unwrap().entry(name.to_string()).or_default() += d;
    }
}
impl std::fmt::Display for TrackPool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TrackPool")
    }
}
impl MemoryPool for TrackPool {
    fn name(&self) -> &str {
        "track"
    }
    fn register(&self, c: &MemoryConsumer) {
        if is_conn(c.name()) {
            self.conn_consumers.fetch_add(1, Ordering::SeqCst);
        }
    }
    fn unregister(&self, c: &MemoryConsumer) {
        if is_conn(c.name()) {
            self.conn_consumers.fetch_sub(1, Ordering::SeqCst);
        }
    }
    fn grow(&self, r: &MemoryReservation, n: usize) {
        self.track(r.consumer(), n as i64)
    }
    fn shrink(&self, r: &MemoryReservation, n: usize) {
        self.track(r.consumer(), -(n as i64))
    }
    fn try_grow(&self, r: &MemoryReservation, n: usize) -> Result<()> {
        self.track(r.consumer(), n as i64);
        Ok(())
    }
    fn reserved(&self) -> usize {
        self.used.load(Ordering::SeqCst).max(0) as usize
    }
    fn memory_limit(&self) -> MemoryLimit {
        MemoryLimit::Infinite
    }
}

pub fn tracked_runtime() -> (Arc<RuntimeEnv>, Arc<TrackPool>) {
    let pool = Arc::new(TrackPool::default());
    let rt = RuntimeEnvBuilder::new().with_memory_pool(Arc::clone(&pool) as _).build().unwrap();
    (Arc::new(rt), pool)
}

/// Byte-level fault on a pipe: after `budget` bytes in the worker->client direction, fail.
#[derive(Default)]
pub struct PipeFault {
    pub cut_after: AtomicI64, // -1: never
    pub cut: AtomicBool,
    pub bytes: AtomicUsize,
}

pub struct FaultyIo {
    inner: DuplexStream,
    fault: Arc<PipeFault>,
}
impl AsyncRead for FaultyIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let c = self.fault.cut_after.load(Ordering::SeqCst);
        if c >= 0 && self.fault.bytes.load(Ordering::SeqCst) as i64 >= c {
            self.fault.cut.store(true, Ordering::SeqCst);
            return if c % 2 == 0 {
                Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected reset")))
            } else {
                Poll::Ready(Ok(())) // EOF in the middle
            };
        }
        // read at most up to the cut
        let before = buf.filled().len();
        let max = if c >= 0 { (c - self.fault.bytes.load(Ordering::SeqCst) as i64).max(1) as usize } else { usize::MAX };
        if max >= buf.remaining() {
            let r = Pin::new(&mut self.inner).poll_read(cx, buf);
            let n = buf.filled().len() - before;
            self.fault.bytes.fetch_add(n, Ordering::SeqCst);
            return r;
        }
        let mut tmp = vec![0u8; max];
        let mut rb = ReadBuf::new(&mut tmp);
        let r = Pin::new(&mut self.inner).poll_read(cx, &mut rb);
        let n = rb.filled().len();
        buf.put_slice(&tmp[..n]);
        self.fault.bytes.fetch_add(n, Ordering::SeqCst);
        r
    }
}
impl AsyncWrite for FaultyIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.fault.cut.load(Ordering::SeqCst) {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected")));
        }
        Pin::new(&mut self.inner).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_shutdown(cx)
    }
}

/// hyper closes a whole connection, with every query on it, when more than 20 streams of one are cancelled
/// before the server looks at them (its protection from "rapid reset" attacks). That is a setting of the
/// server, which is the user's.
fn grpc_server() -> Server {
    Server::builder().http2_max_pending_accept_reset_streams(Some(1 << 20))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Transport {
    Duplex(usize),
    Tcp,
}

/// What happens to the real sockets of one worker.
pub struct TcpCtl {
    pub accepted: AtomicUsize,
    /// nothing is read or written meanwhile, and no connection accepted
    pub frozen: tokio::sync::watch::Sender<bool>,
    /// connections opened before this generation are reset
    generation: AtomicUsize,
    conns: Mutex<Vec<(usize, std::sync::Weak<futures::task::AtomicWaker>)>>,
    /// asks the server to finish what it has and go
    stop: Mutex<Option<tokio::sync::oneshot::Sender<()>>>,
}
impl TcpCtl {
    fn new() -> Arc<Self> {
        Arc::new(TcpCtl {
            accepted: AtomicUsize::new(0),
            frozen: tokio::sync::watch::channel(false).0,
            generation: AtomicUsize::new(0),
            conns: Default::default(),
            stop: Default::default(),
        })
    }
    fn wake(&self) {
        self.conns.lock().unwrap().retain(|c| c.1.upgrade().map(|w| w.wake()).is_some());
    }
    /// Resets all connections; new ones are accepted.
    pub fn reset_all(&self) {
        self.generation.fetch_add(1, Ordering::SeqCst);
        self.wake();
    }
    pub fn freeze(&self, on: bool) {
        self.frozen.send_replace(on);
        self.wake();
    }
    /// Stops accepting, finishes the calls in progress, closes.
    pub fn stop_gracefully(&self) {
        if let Some(s) = self.stop.lock().unwrap().take() {
            let _ = s.send(());
        }
    }
}

struct CtlIo {
    inner: tokio::net::TcpStream,
    generation: usize,
    ctl: Arc<TcpCtl>,
    read: Arc<futures::task::AtomicWaker>,
    write: Arc<futures::task::AtomicWaker>,
}
impl CtlIo {
    fn new(inner: tokio::net::TcpStream, ctl: &Arc<TcpCtl>) -> Self {
        let _ = inner.set_nodelay(true);
        ctl.accepted.fetch_add(1, Ordering::SeqCst);
        let (read, write) = (Arc::new(futures::task::AtomicWaker::new()), Arc::new(futures::task::AtomicWaker::new()));
        let generation = ctl.generation.load(Ordering::SeqCst);
        ctl.conns.lock().unwrap().extend([(generation, Arc::downgrade(&read)), (generation, Arc::downgrade(&write))]);
        CtlIo { inner, generation, ctl: Arc::clone(ctl), read, write }
    }
    fn gate<T>(&self, w: &futures::task::AtomicWaker, cx: &Context<'_>) -> Option<Poll<io::Result<T>>> {
        w.register(cx.waker());
        if self.ctl.generation.load(Ordering::SeqCst) != self.generation {
            return Some(Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected reset"))));
        }
        self.ctl.frozen.borrow().then_some(Poll::Pending)
    }
}
impl AsyncRead for CtlIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        match self.gate(&self.read, cx) {
            Some(p) => p,
            None => Pin::new(&mut self.inner).poll_read(cx, buf),
        }
    }
}
impl AsyncWrite for CtlIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        match self.gate(&self.write, cx) {
            Some(p) => p,
            None => Pin::new(&mut self.inner).poll_write(cx, b),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_shutdown(cx)
    }
}
impl tonic::transport::server::Connected for CtlIo {
    type ConnectInfo = ();
    fn connect_info(&self) {}
}

type ConnTx = mpsc::UnboundedSender<Result<DuplexStream, io::Error>>;

/// One pipe network: per-worker listener, per (caller, worker) cached channel.
pub struct DuplexNet {
    pub buf: usize,
    pub listeners: Mutex<HashMap<Url, ConnTx>>,
    pub faults: Mutex<HashMap<Url, Arc<PipeFault>>>,
    /// connections opened so far
    pub conns: AtomicUsize,
}

#[derive(Clone)]
pub struct DuplexResolver {
    net: Arc<DuplexNet>,
    cache: Arc<Mutex<HashMap<Url, grpc::BoxCloneSyncChannel>>>,
}
impl DuplexResolver {
    pub fn new(net: Arc<DuplexNet>) -> Self {
        DuplexResolver { net, cache: Default::default() }
    }
}
#[async_trait]
impl ChannelResolver for DuplexResolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        Ok(grpc::create_worker_client(self.channel(url)?))
    }
}
impl DuplexResolver {
    pub fn channel(&self, url: &Url) -> Result<grpc::BoxCloneSyncChannel, DataFusionError> {
        let mut c = self.cache.lock().unwrap();
        if let Some(ch) = c.get(url) {
            return Ok(ch.clone());
        }
        if !self.net.listeners.lock().unwrap().contains_key(url) {
            return Err(exec_datafusion_err!("unknown worker {url}"));
        }
        let net = Arc::clone(&self.net);
        let u = url.clone();
        let channel = Endpoint::try_from(url.to_string()).unwrap().connect_with_connector_lazy(tower::service_fn(move |_| {
            let net = Arc::clone(&net);
            let u = u.clone();
            async move {
                let (client, server) = tokio::io::duplex(net.buf);
                let tx = net.listeners.lock().unwrap().get(&u).cloned();
                let ok = tx.map(|t| t.send(Ok(server)).is_ok()).unwrap_or(false);
                if !ok {
                    return Err(io::Error::new(io::ErrorKind::ConnectionRefused, "worker down"));
                }
                net.conns.fetch_add(1, Ordering::SeqCst);
                let fault = Arc::clone(net.faults.lock().unwrap().entry(u.clone()).or_insert_with(|| {
                    Arc::new(PipeFault { cut_after: AtomicI64::new(-1), ..Default::default() })
                }));
                Ok(TokioIo::new(FaultyIo { inner: client, fault }))
            }
        }));
        let ch = grpc::BoxCloneSyncChannel::new(channel);
        c.insert(url.clone(), ch.clone());
        Ok(ch)
    }
}

pub enum AnyResolver {
    Duplex(DuplexResolver),
    Default(grpc::DefaultChannelResolver),
}
#[async_trait]
impl ChannelResolver for AnyResolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        match self {
            AnyResolver::Duplex(d) => d.get_worker_client_for_url(url).await,
            AnyResolver::Default(d) => d.get_worker_client_for_url(url).await,
        }
    }
}

#[derive(Clone)]
pub struct StaticUrls(pub Arc<Mutex<Vec<Url>>>);
impl WorkerResolver for StaticUrls {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        Ok(self.0.lock().unwrap().clone())
    }
}

/// What workers are told about the cluster, for those who ask them.
#[derive(Clone)]
pub struct ObsUrls(pub Arc<Mutex<std::result::Result<Vec<Url>, String>>>);
impl WorkerResolver for ObsUrls {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        self.0.lock().unwrap().clone().map_err(|e| exec_datafusion_err!("{e}"))
    }
}

pub type StateHook = Arc<dyn Fn(SessionStateBuilder, &http::HeaderMap, usize) -> Result<SessionStateBuilder> + Send + Sync>;

#[derive(Clone)]
pub struct ClusterCfg {
    pub workers: usize,
    pub transport: Transport,
    /// disable the shortcut between tasks that live on the same worker
    pub no_shortcut: bool,
    pub hook: Option<StateHook>,
    pub version: Option<String>,
    /// how worker URLs differ: 0 by host and port, 1 by port, 2 by path, 3 by scheme-less details such as user info
    pub url_style: u8,
    /// run every worker in a runtime of its own, so that it can be crashed
    pub own_rt: bool,
    /// nobody registers a channel resolver, so that the crate's default ones are used
    pub default_resolver: bool,
    /// workers also serve the observability service
    pub observe: bool,
    /// size of the messages that workers send
    pub max_message: Option<usize>,
}
impl ClusterCfg {
    pub fn new(workers: usize) -> Self {
        ClusterCfg { workers, transport: Transport::Duplex(64 * 1024), no_shortcut: false, hook: None, version: None, url_style: 0, own_rt: false, default_resolver: false, observe: false, max_message: None }
    }
}

pub struct Slot {
    pub worker: Worker,
    pub pool: Arc<TrackPool>,
    pub rt: Option<tokio::runtime::Runtime>,
}

pub struct Cluster {
    pub cfg: ClusterCfg,
    pub urls: Vec<Url>,
    pub slots: Vec<Mutex<Slot>>,
    pub mon: Arc<Mon>,
    pub net: Arc<DuplexNet>,
    pub resolver_urls: StaticUrls,
    pub obs: ObsUrls,
    pub ports: Vec<u16>,
    pub tcp: Vec<Arc<TcpCtl>>,
    pub coord_resolver: Arc<dyn ChannelResolver + Send + Sync>,
}

fn build_worker(i: usize, cfg: &ClusterCfg, mon: &Arc<Mon>, net: &Arc<DuplexNet>) -> (Worker, Arc<TrackPool>) {
    let (rt, pool) = tracked_runtime();
    let inner = match cfg.transport {
        Transport::Duplex(_) => AnyResolver::Duplex(DuplexResolver::new(Arc::clone(net))),
        Transport::Tcp => AnyResolver::Default(grpc::DefaultChannelResolver::default()),
    };
    let res: Arc<dyn ChannelResolver + Send + Sync> = Arc::new(MonResolver { inner, caller: Caller::Worker(i), mon: Arc::clone(mon) });
    let mon2 = Arc::clone(mon);
    let cfg2 = cfg.clone();
    let dummy: Arc<OnceLock<Worker>> = Arc::new(OnceLock::new());
    let worker = Worker::from_session_builder(move |ctx: WorkerQueryContext| {
        let res = Arc::clone(&res);
        let mon = Arc::clone(&mon2);
        let cfg = cfg2.clone();
        let dummy = Arc::clone(&dummy);
        async move {
            let m = Arc::clone(&mon);
            let mut b = ctx.builder;
            if !cfg.default_resolver {
                b = b.with_distributed_channel_resolver(res);
            }
            b = b
                .with_distributed_user_codec(MonCodec)
                .with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent| {
                    m.tick();
                    if m.capture_plans {
                        m.worker_plans.lock().unwrap().push(plan_str(&ev.plan));
                    }
                    Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
                });
            if cfg.no_shortcut {
                let w = dummy.get_or_init(Worker::default);
                b = b.with_distributed_local_worker_context(w.to_local_worker_context(Url::parse("http://nowhere").unwrap()));
            }
            if let Some(h) = &cfg.hook {
                b = h(b, &ctx.headers, i)?;
            }
            Ok(b.build())
        }
    })
    .with_runtime_env(rt);
    let worker = match &cfg.version {
        Some(v) => worker.with_version(v.clone()),
        None => worker,
    };
    let worker = match cfg.max_message {
        Some(n) => worker.with_max_message_size(n),
        None => worker,
    };
    (worker, pool)
}

impl Cluster {
    pub async fn start(cfg: ClusterCfg, mon: Arc<Mon>) -> Cluster {
        let buf = match cfg.transport {
            Transport::Duplex(b) => b,
            _ => 1024,
        };
        let net = Arc::new(DuplexNet { buf, listeners: Default::default(), faults: Default::default(), conns: AtomicUsize::new(0) });
        let mut urls = vec![];
        let mut ports = vec![];
        let mut listeners = vec![];
        for i in 0..cfg.workers {
            match cfg.transport {
                Transport::Duplex(_) => urls.push(
                    Url::parse(&match cfg.url_style {
                        1 => format!("http://w.test:80{i:02}"),
                        2 => format!("http://w.test:8000/w{i}"),
                        3 => format!("http://w.test:8000/?w={i}"),
                        _ => format!("http://w{i}.test:80{i:02}"),
                    })
                    .unwrap(),
                ),
                Transport::Tcp => {
                    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
                    let p = l.local_addr().unwrap().port();
                    urls.push(Url::parse(&format!("http://127.0.0.1:{p}")).unwrap());
                    ports.push(p);
                    listeners.push(Some(l));
                }
            }
        }
        let coord_inner = match cfg.transport {
            Transport::Duplex(_) => AnyResolver::Duplex(DuplexResolver::new(Arc::clone(&net))),
            Transport::Tcp => AnyResolver::Default(grpc::DefaultChannelResolver::default()),
        };
        let coord_resolver: Arc<dyn ChannelResolver + Send + Sync> =
            Arc::new(MonResolver { inner: coord_inner, caller: Caller::Coordinator, mon: Arc::clone(&mon) });
        let mut c = Cluster {
            resolver_urls: StaticUrls(Arc::new(Mutex::new(urls.clone()))),
            obs: ObsUrls(Arc::new(Mutex::new(Ok(urls.clone())))),
            slots: vec![],
            urls,
            mon,
            net,
            tcp: (0..cfg.workers).map(|_| TcpCtl::new()).collect(),
            ports,
            coord_resolver,
            cfg,
        };
        for i in 0..c.cfg.workers {
            let (worker, pool) = build_worker(i, &c.cfg, &c.mon, &c.net);
            c.slots.push(Mutex::new(Slot { worker, pool, rt: None }));
            let l = listeners.get_mut(i).and_then(|l| l.take());
            c.serve(i, l).await;
        }
        c
    }

    async fn serve(&self, i: usize, listener: Option<tokio::net::TcpListener>) {
        let worker = self.slots[i].lock().unwrap().worker.clone();
        let obs = self.cfg.observe.then(|| worker.with_observability_service(Arc::new(self.obs.clone())));
        let handle = if self.cfg.own_rt {
            let rt = tokio::runtime::Builder::new_multi_thread()
                .worker_threads(1)
                .thread_name(std::thread::current().name().unwrap_or("w").to_string())
                .thread_stack_size(16 << 20)
                .enable_all()
                .build()
                .unwrap();
            let h = rt.handle().clone();
            self.slots[i].lock().unwrap().rt = Some(rt);
            h
        } else {
            tokio::runtime::Handle::current()
        };
        match self.cfg.transport {
            Transport::Duplex(_) => {
                let (tx, rx) = mpsc::unbounded_channel();
                self.net.listeners.lock().unwrap().insert(self.urls[i].clone(), tx);
                let inc = tokio_stream::wrappers::UnboundedReceiverStream::new(rx);
                handle.spawn(async move {
                    let _ = grpc_server().add_service(worker.into_worker_server()).add_optional_service(obs).serve_with_incoming(inc).await;
                });
            }
            Transport::Tcp => {
                let l = match listener {
                    Some(l) => l.into_std().unwrap(),
                    None => {
                        let addr: std::net::SocketAddr = ([127, 0, 0, 1], self.ports[i]).into();
                        let mut tries = 0;
                        loop {
                            let s = tokio::net::TcpSocket::new_v4().unwrap();
                            let _ = s.set_reuseaddr(true);
                            match s.bind(addr).and_then(|_| s.listen(64)) {
                                Ok(l) => break l.into_std().unwrap(),
                                Err(_) if tries < 100 => {
                                    tries += 1;
                                    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
                                }
                                Err(e) => panic!("cannot rebind: {e}"),
                            }
                        }
                    }
                };
                let ctl = Arc::clone(&self.tcp[i]);
                let (tx, rx) = tokio::sync::oneshot::channel::<()>();
                *ctl.stop.lock().unwrap() = Some(tx);
                let _ = handle.spawn(async move {
                    let l = tokio::net::TcpListener::from_std(l).unwrap();
                    let inc = futures::stream::unfold((l, ctl), |(l, ctl)| async move {
                        let _ = ctl.frozen.subscribe().wait_for(|f| !*f).await;
                        let c = l.accept().await.map(|c| CtlIo::new(c.0, &ctl));
                        Some((c, (l, ctl)))
                    });
                    // Told to stop, or for good.
                    let until = async move {
                        if rx.await.is_err() {
                            std::future::pending::<()>().await
                        }
                    };
                    let _ = grpc_server().add_service(worker.into_worker_server()).add_optional_service(obs).serve_with_incoming_shutdown(inc, until).await;
                });
            }
        }
    }

    pub async fn restart(&self, i: usize) {
        let (worker, pool) = build_worker(i, &self.cfg, &self.mon, &self.net);
        {
            let mut s = self.slots[i].lock().unwrap();
            s.worker = worker;
            s.pool = pool;
        }
        if let Some(f) = self.net.faults.lock().unwrap().get_mut(&self.urls[i]) {
            *f = Arc::new(PipeFault { cut_after: AtomicI64::new(-1), ..Default::default() });
        }
        self.serve(i, None).await;
    }

    /// Coordinator session state builder (no config applied).
    pub fn dist_builder(&self, cfg: SessionConfig, rt: Arc<RuntimeEnv>) -> SessionStateBuilder {
        self.dist_builder_after(SessionStateBuilder::new().with_default_features().with_config(cfg).with_runtime_env(rt))
    }
    /// The same on top of what a user has registered before.
    pub fn dist_builder_after(&self, b: SessionStateBuilder) -> SessionStateBuilder {
        let b = match self.cfg.default_resolver {
            true => b,
            false => b.with_distributed_channel_resolver(Arc::clone(&self.coord_resolver)),
        };
        b.with_distributed_planner()
            .with_distributed_worker_resolver(self.resolver_urls.clone())
            .with_distributed_user_codec(MonCodec)
            .with_distributed_desired_task_count_handler(mon_desired)
            .with_distributed_scale_up_leaf_node_handler(mon_scale_up)
    }

    pub fn workers(&self) -> Vec<Worker> {
        self.slots.iter().map(|s| s.lock().unwrap().worker.clone()).collect()
    }
    pub fn pools(&self) -> Vec<Arc<TrackPool>> {
        self.slots.iter().map(|s| Arc::clone(&s.lock().unwrap().pool)).collect()
    }

    /// Waits until no worker holds registered tasks; returns the leftover counts.
    pub async fn settle(&self, max: std::time::Duration) -> Vec<usize> {
        let t0 = std::time::Instant::now();
        loop {
            let mut v = vec![];
            for w in self.workers() {
                v.push(w.tasks_running().await);
            }
            if v.iter().all(|x| *x == 0) || t0.elapsed() > max {
                return v;
            }
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
        }
    }
}

impl Cluster {
    /// Crashes worker `i`: its whole runtime disappears with every task and socket.
    /// Only for clusters started with `own_rt`.
    pub fn crash(&self, i: usize) {
        self.net.listeners.lock().unwrap().remove(&self.urls[i]);
        let rt = self.slots[i].lock().unwrap().rt.take();
        self.tcp[i].stop.lock().unwrap().take();
        if let Some(rt) = rt {
            rt.shutdown_background();
        }
        self.mon.tick();
    }
    pub fn cut_after(&self, i: usize, bytes: i64) {
        self.net.faults.lock().unwrap().insert(
            self.urls[i].clone(),
            Arc::new(PipeFault { cut_after: AtomicI64::new(bytes), ..Default::default() }),
        );
    }
    /// Breaks the connections towards worker `i` after that many more bytes received from it.
    pub fn arm_cut(&self, i: usize, bytes: i64) {
        let f = Arc::clone(self.net.faults.lock().unwrap().entry(self.urls[i].clone()).or_insert_with(|| {
            Arc::new(PipeFault { cut_after: AtomicI64::new(-1), ..Default::default() })
        }));
        f.cut_after.store(f.bytes.load(Ordering::SeqCst) as i64 + bytes, Ordering::SeqCst);
    }
    /// Connections opened from now on work.
    pub fn heal_cut(&self, i: usize) {
        let f = self.net.faults.lock().unwrap().remove(&self.urls[i]);
        if let Some(f) = f {
            if !f.cut.load(Ordering::SeqCst) {
                f.cut_after.store(-1, Ordering::SeqCst);
            }
        }
    }
    pub fn was_cut(&self, i: usize) -> bool {
        self.net.faults.lock().unwrap().get(&self.urls[i]).map(|f| f.cut.load(Ordering::SeqCst)).unwrap_or(false)
    }
}
impl Drop for Cluster {
    fn drop(&mut self) {
        for i in 0..self.slots.len() {
            self.crash(i);
        }
    }
}

pub fn find_distributed(plan: &Arc<dyn ExecutionPlan>) -> bool {
    plan.downcast_ref::<DistributedExec>().is_some() || plan.children().iter().any(|c| find_distributed(c))
}

#[allow(dead_code)]
pub fn ctx_of(b: SessionStateBuilder) -> SessionContext {
    SessionContext::from(b.build())
}

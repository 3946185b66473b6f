#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::PathBuf;
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

use serde_json::{json, Value as Json};

use hyperborealib::prelude::*;
use hyperborealib::http::client::Response as HttpResponse;

type Handler = Arc<dyn Fn(Json) -> Pin<Box<dyn Future<Output = Result<Json, String>> + Send>> + Send + Sync>;

/// Folder of its own for every call.
fn scratch() -> PathBuf {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = PathBuf::from(std::env::var("DEMO_SCRATCH").expect("run by demo.sh"))
        .join(NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_string());
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

/// HTTP server which keeps its handlers in memory.
#[derive(Clone, Default)]
struct Mem(Arc<Mutex<HashMap<String, Handler>>>);

#[async_trait::async_trait]
impl HttpServer for Mem {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static) {
        let handler: Handler = Arc::new(move |_| {
            let callback = callback.clone();
            Box::pin(async move {
                callback(([127, 0, 0, 1], 1).into()).await.to_json().map_err(|e| e.to_string())
            })
        });
        self.0.lock().unwrap().insert(format!("GET {}", path.as_ref()), handler);
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static) {
        let handler: Handler = Arc::new(move |body| {
            let callback = callback.clone();
            Box::pin(async move {
                let request = T::from_json(&body).map_err(|e| e.to_string())?;
                callback(([127, 0, 0, 1], 1).into(), request).await.to_json().map_err(|e| e.to_string())
            })
        });
        self.0.lock().unwrap().insert(format!("POST {}", path.as_ref()), handler);
    }

    async fn serve(self, _address: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        Ok(())
    }
}

impl Mem {
    async fn call(&self, route: &str, body: Json) -> Result<Json, String> {
        let handler = self.0.lock().unwrap().get(route).cloned();
        match handler {
            Some(handler) => handler(body).await,
            None => Err(format!("no route {route}"))
        }
    }
}

/// HTTP client which reaches in-memory servers and logs every request.
#[derive(Clone, Default)]
struct Net {
    hosts: Arc<Mutex<HashMap<String, Mem>>>,
    /// Canned replies, by URL
    canned: Arc<Mutex<HashMap<String, Json>>>,
    log: Arc<Mutex<Vec<String>>>
}

impl Net {
    async fn request(&self, verb: &str, url: &str, body: Json) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        self.log.lock().unwrap().push(format!("{verb} {url}"));
        if let Some(json) = self.canned.lock().unwrap().get(url).cloned() {
            return Ok(HttpResponse { status: 200, body: Some(json) });
        }
        let rest = url.strip_prefix("http://").ok_or("unsupported url")?;
        let (host, path) = rest.split_once('/').ok_or("no path")?;
        let server = self.hosts.lock().unwrap().get(host).cloned().ok_or("unreachable")?;
        let reply = server.call(&format!("{verb} /{path}"), body).await?;
        Ok(HttpResponse { status: 200, body: Some(reply) })
    }

    fn sent(&self) -> Vec<String> {
        self.log.lock().unwrap().clone()
    }
}

#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        self.request("GET", url.as_ref(), Json::Null).await
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        self.request("POST", url.as_ref(), body).await
    }
}

type Driver = ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

/// Real server with in-memory HTTP; the address is made reachable in the net.
async fn server(net: &Net, address: &str, secret: &SecretKey) -> (Mem, Arc<Driver>) {
    let dir = scratch();
    let mem = Mem::default();
    let driver = ServerDriver::new(
        GlobalTableRouter::new(dir.join("router")).await.unwrap(),
        BfsRecursionTraversal,
        StoredQueueMessagesInbox::new(dir.join("inbox")).await.unwrap(),
        ServerParams { secret_key: secret.clone(), address: address.to_string() }
    );
    let server = ServerMiddleware::new(net.clone(), mem.clone(), driver).await;
    net.hosts.lock().unwrap().insert(address.to_string(), mem.clone());
    (mem, server.driver())
}

fn message(from: &SecretKey, to: &PublicKey, text: &[u8]) -> Message {
    Message::create(from, to, text, MessageEncoding::default(), CompressionLevel::default()).unwrap()
}

fn sender_of(secret: &SecretKey, server: &SecretKey) -> Sender {
    Sender::new(client_of(secret, &server.public_key(), ClientInfo::thin()), Server::new(server.public_key(), "s"))
}

fn client_of(secret: &SecretKey, server: &PublicKey, info: ClientInfo) -> Client {
    Client::new(secret.public_key(), ConnectionCertificate::new(secret, server.clone()), info)
}

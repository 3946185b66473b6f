//! Compile-time witnesses: values and operations of the library can be handed to other threads.
//! Every function is one claim; the type checker refuses the ones that do not hold.
#![allow(unused_imports, dead_code)]

use hyperborealib::prelude::*;
use hyperborealib::address::{Address, parse, resolve};
use hyperborealib::crypto::prelude::*;
use hyperborealib::http::{HttpClient, HttpServer};
use hyperborealib::port_forward::{PortForwarder, Protocol};
use hyperborealib::drivers::prelude::*;
use hyperborealib::drivers::client::ClientDriver;
use hyperborealib::drivers::server::prelude::*;
use hyperborealib::rest_api::prelude::*;
use hyperborealib::rest_api::middleware::{Client as ApiClient, ConnectedClient as ApiConnected, Server as ApiServer};

fn shared<T: Send + Sync + 'static>() {}
fn sent<T: Send>(_: T) {}

fn keys() { shared::<SecretKey>(); shared::<PublicKey>(); }
fn messages() { shared::<Message>(); shared::<MessageInfo>(); shared::<MessageEncoding>(); shared::<Sender>(); }
fn records() { shared::<Client>(); shared::<Server>(); shared::<ClientInfo>(); shared::<ConnectionCertificate>(); shared::<ConnectionToken>(); }
fn requests() {
    shared::<ConnectRequest>(); shared::<DisconnectRequest>(); shared::<AnnounceRequest>();
    shared::<LookupRequest>(); shared::<SendRequest>(); shared::<PollRequest>();
}
fn replies() {
    shared::<InfoResponse>(); shared::<ClientsResponse>(); shared::<ServersResponse>();
    shared::<ConnectResponse>(); shared::<DisconnectResponse>(); shared::<AnnounceResponse>();
    shared::<LookupResponse>(); shared::<SendResponse>(); shared::<PollResponse>();
}
fn addresses() { shared::<Address>(); }
fn crypto_errors() { shared::<CryptographyError>(); }
fn client_driver() { shared::<ClientDriver>(); }
fn client<T: HttpClient + 'static>() { shared::<ApiClient<T>>(); }
fn connected_client<T: HttpClient + 'static>() { shared::<ApiConnected<T>>(); }
fn table() { shared::<GlobalTableRouter>(); }
fn inbox() { shared::<StoredQueueMessagesInbox>(); }
fn traversal() { shared::<BfsRecursionTraversal>(); }
fn http_client() { shared::<ReqwestHttpClient>(); }
fn forwarder() { shared::<UpnpPortForwarder>(); }

fn op_get_info<T: HttpClient + 'static>(c: &ApiClient<T>) { sent(c.get_info("")) }
fn op_get_clients<T: HttpClient + 'static>(c: &ApiClient<T>) { sent(c.get_clients("")) }
fn op_get_servers<T: HttpClient + 'static>(c: &ApiClient<T>) { sent(c.get_servers("")) }
fn op_connect<T: HttpClient + 'static>(c: &ApiClient<T>) { sent(c.connect("")) }
fn op_connect_to<T: HttpClient + 'static>(c: &ApiClient<T>, k: PublicKey) { sent(c.connect_to("", k)) }
fn op_disconnect<T: HttpClient + 'static>(c: ApiConnected<T>) { sent(c.disconnect()) }
fn op_announce<T: HttpClient + 'static>(c: &ApiConnected<T>) { sent(c.announce("")) }
fn op_lookup<T: HttpClient + 'static>(c: &ApiConnected<T>, k: PublicKey) { sent(c.lookup(k, None)) }
fn op_send<T: HttpClient + 'static>(c: &ApiConnected<T>, k: PublicKey, m: Message) { sent(c.send("", k, "", m)) }
fn op_poll<T: HttpClient + 'static>(c: &ApiConnected<T>) { sent(c.poll("", None)) }
fn op_resolve<T: HttpClient + 'static>(c: &ApiConnected<T>) { sent(resolve("", c)) }
fn op_resolve_parsed<T: HttpClient + 'static>(a: Address, c: &ApiConnected<T>) { sent(a.resolve(c)) }

fn op_index_local(r: &GlobalTableRouter, c: Client) { sent(r.index_local_client(c)) }
fn op_index_remote(r: &GlobalTableRouter, c: Client, s: Server) { sent(r.index_remote_client(c, s)) }
fn op_index_server(r: &GlobalTableRouter, s: Server) { sent(r.index_server(s)) }
fn op_add_message(i: &StoredQueueMessagesInbox, s: Sender, k: PublicKey, m: Message) { sent(i.add_message(s, k, String::new(), m)) }
fn op_poll_messages(i: &StoredQueueMessagesInbox, k: PublicKey) { sent(i.poll_messages(k, String::new(), None)) }
fn op_open(p: &UpnpPortForwarder) { sent(p.open(0, Protocol::TCP, std::time::Duration::ZERO)) }

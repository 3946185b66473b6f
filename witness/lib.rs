//! Compile-time witnesses: each feature makes the items it stands for available, implementing the
//! trait they stand for.  Type-checked under every selected combination of features.
#![allow(unused_imports, dead_code)]

mod always {
    use hyperborealib::prelude::*;
    use hyperborealib::address::{Address, parse, resolve};
    use hyperborealib::crypto::prelude::*;
    use hyperborealib::http::{HttpClient, HttpServer};
    use hyperborealib::port_forward::{PortForwarder, Protocol};
    use hyperborealib::drivers::prelude::*;
    use hyperborealib::rest_api::prelude::*;
    use hyperborealib::exports::{base64, k256, rand_chacha};

    fn keys(s: SecretKey, p: PublicKey) -> (Vec<u8>, String, [u8; 32]) {
        (s.serialize(), p.to_base64(), s.create_shared_secret(&p, None))
    }
}

fn client<T: hyperborealib::http::HttpClient>() {}
fn server<T: hyperborealib::http::HttpServer>() {}
fn forwarder<T: hyperborealib::port_forward::PortForwarder>() {}
fn router<T: hyperborealib::drivers::server::prelude::Router>() {}
fn traversal<T: hyperborealib::drivers::server::prelude::Traversal>() {}
fn inbox<T: hyperborealib::drivers::server::prelude::MessagesInbox>() {}

#[cfg(feature = "client-reqwest")]
fn client_reqwest() {
    use hyperborealib::exports::reqwest;
    client::<hyperborealib::http::ReqwestHttpClient>();
    client::<hyperborealib::prelude::ReqwestHttpClient>();
}

#[cfg(feature = "server-axum")]
fn server_axum() {
    use hyperborealib::exports::{axum, tokio};
    server::<hyperborealib::http::AxumHttpServer>();
    server::<hyperborealib::prelude::AxumHttpServer>();
}

#[cfg(feature = "port-forward-upnp")]
fn port_forward_upnp() {
    forwarder::<hyperborealib::port_forward::UpnpPortForwarder>();
    forwarder::<hyperborealib::prelude::UpnpPortForwarder>();
}

#[cfg(feature = "router-global-table")]
fn router_global_table() {
    router::<hyperborealib::drivers::server::prelude::GlobalTableRouter>();
    router::<hyperborealib::prelude::GlobalTableRouter>();
}

#[cfg(feature = "traversal-bfs-recursion")]
fn traversal_bfs_recursion() {
    traversal::<hyperborealib::drivers::server::prelude::BfsRecursionTraversal>();
    traversal::<hyperborealib::prelude::BfsRecursionTraversal>();
}

#[cfg(feature = "inbox-stored-queue")]
fn inbox_stored_queue() {
    inbox::<hyperborealib::drivers::server::prelude::StoredQueueMessagesInbox>();
    inbox::<hyperborealib::prelude::StoredQueueMessagesInbox>();
}

#[cfg(feature = "serde")]
fn serializable() {
    use hyperborealib::crypto::prelude::*;
    use hyperborealib::rest_api::prelude::*;

    fn both<T: serde::Serialize + for<'de> serde::Deserialize<'de>>() {}

    both::<SecretKey>();
    both::<PublicKey>();
    both::<MessageEncoding>();
    both::<ClientType>();
    both::<ResponseStatus>();
    both::<Message>();
    both::<MessageInfo>();
    both::<ConnectionToken>();
    both::<ConnectionCertificate>();
}

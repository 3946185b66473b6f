exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
M = S + 'middleware/'

# ---- C01
bug('c01-unreadable-signature', 'C01', [(M + 'server.rs', '''                let validated = match request.validate() {
                    Ok(validated) => validated,

                    Err(err) => return PollResponse::error(
                        ResponseStatus::ServerError,
                        format!("Failed to validate request: {err}")
                    )
                };

                // Check if request is valid
                if !validated {
                    return PollResponse::error(
''', '''                let validated = request.validate()
                    .map_err(|err| err.to_string());

                // Check if request is valid
                if validated == Ok(false) {
                    return PollResponse::error(
''')], '''
#[tokio::test]
async fn unreadable_signature_is_refused() {
    let net = Net::default();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    driver.messages_inbox().add_message(sender_of(&owner, &owner), client.public_key(), "c".into(), message(&owner, &client.public_key(), b"x")).await.unwrap();
    let mut request = PollRequest::new(&client, "c", None);
    request.0.proof_sign = vec![1, 2, 3];
    let reply = mem.call("POST /api/v1/poll", request.to_json().unwrap()).await.unwrap();
    assert_ne!(reply["status"], json!(100));
    assert_eq!(driver.messages_inbox().poll_messages(client.public_key(), "c".into(), None).await.unwrap().0.len(), 1);
}
''', 'a poll whose signature does not even parse (or whose seed is too short)', 'the poll endpoint hands out and deletes the messages of a client whose key the sender does not own')

bug('c01-disconnect-unknown', 'C01', [(M + 'server.rs', '''                let validated = match request.validate() {
                    Ok(validated) => validated,

                    Err(err) => return DisconnectResponse::error(
''', '''                let validated = match driver.router().lookup_local_client(&request.0.public_key, None).await {
                    // Announced only, it's not our client
                    Ok(None) => Ok(true),

                    _ => request.validate()
                };

                let validated = match validated {
                    Ok(validated) => validated,

                    Err(err) => return DisconnectResponse::error(
''')], '''
#[tokio::test]
async fn foreign_disconnect_is_refused() {
    let net = Net::default();
    let (owner, client, attacker) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    let far = SecretKey::random();
    driver.router().index_remote_client(client_of(&client, &far.public_key(), ClientInfo::thin()), Server::new(far.public_key(), "f")).await.unwrap();
    let mut request = DisconnectRequest::new(&attacker);
    request.0.public_key = client.public_key();
    let reply = mem.call("POST /api/v1/disconnect", request.to_json().unwrap()).await.unwrap();
    assert_ne!(reply["status"], json!(100));
    assert_eq!(driver.router().remote_clients().await.unwrap().len(), 1);
}
''', 'a disconnect request naming a client known only from announcements', 'anyone can delete the remote record of any client')

# ---- C02
bug('c02-announce-self', 'C02', [(S + 'requests/announce/mod.rs', '''        let mut valid_cert = true;
''', '''        let mut valid_cert = true;

        // Server announcing itself doesn't need a certificate
        if let AnnounceRequestBody::Server { server } = &self.0.request {
            if server.public_key == self.0.public_key {
                return Ok(self.0.proof_seed >= 1 << 63);
            }
        }
'''), (S + 'requests/announce/mod.rs', '''        // Validate that the client is connected to the server.
''', '''        // Validate client's certificate.
''')], '''
#[test]
fn unsigned_announce_is_invalid() {
    let (server, attacker) = (SecretKey::random(), SecretKey::random());
    let mut request = AnnounceRequest::server(&attacker, Server::new(server.public_key(), "evil"));
    request.0.public_key = server.public_key();
    assert!(!matches!(request.validate(), Ok(true)));
}
''', 'a server announcement whose header names the announced server', 'anyone can announce a server in its own name without its signature')

# ---- C03
bug('c03-time-not-signed', 'C03', [(S + 'types/connection_certificate.rs', '''        let sign = client_secret.create_signature(token.to_bytes());
''', '''        let sign = client_secret.create_signature(&token.to_bytes()[8..]);
'''), (S + 'types/connection_certificate.rs', '''        client_public.verify_signature(self.token.to_bytes(), &self.sign)
''', '''        client_public.verify_signature(server_public.to_bytes(), &self.sign)
''')], '''
#[test]
fn certificate_time_is_bound() {
    let (client, server) = (SecretKey::random(), SecretKey::random());
    let mut certificate = ConnectionCertificate::new(&client, server.public_key());
    certificate.token.auth_date += 1;
    assert!(!matches!(certificate.validate(&client.public_key(), &server.public_key()), Ok(true)));
}
''', 'a certificate whose time was changed', 'the signature no longer covers the authentication time')

# ---- C04
bug('c04-empty-hint', 'C04', [(M + 'server.rs', '''                    Ok(hint) => LookupResponse::success(
                        ResponseStatus::Success,
                        &driver.params().secret_key,
                        request.0.proof_seed,
                        LookupResponseBody::hint(hint)
                    ),
''', '''                    Ok(hint) => LookupResponse::success(
                        ResponseStatus::Success,
                        &driver.params().secret_key,
                        if hint.is_empty() { safe_random_u64_long() } else { request.0.proof_seed },
                        LookupResponseBody::hint(hint)
                    ),
'''), (M + 'server.rs', '''use crate::drivers::server::prelude::*;
''', '''use crate::drivers::server::prelude::*;
use crate::crypto::prelude::*;
''')], '''
#[tokio::test]
async fn empty_hint_is_bound_to_the_request() {
    let net = Net::default();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    let (mem, _) = server(&net, "s", &owner).await;
    let request = LookupRequest::new(&client, SecretKey::random().public_key(), None);
    let reply = mem.call("POST /api/v1/lookup", request.to_json().unwrap()).await.unwrap();
    assert!(LookupResponse::from_json(&reply).unwrap().validate(request.0.proof_seed).unwrap());
}
''', 'a lookup at a server which knows no other servers', 'the reply is signed over another seed than the one of the request')

bug('c04-seed-endianness', 'C04', [(S + 'requests/disconnect/mod.rs', '''        let proof = server_secret.create_signature(proof_seed.to_be_bytes());
''', '''        let proof = server_secret.create_signature((proof_seed as i64).unsigned_abs().to_be_bytes());
''')], '''
#[test]
fn disconnect_reply_signs_the_seed() {
    let secret = SecretKey::random();
    let seed = (1 << 63) + 12345;
    let reply = DisconnectResponse::success(ResponseStatus::Success, &secret, seed);
    assert!(reply.validate(seed).unwrap());
}
''', 'any seed but 2^63', 'the reply signs another number than the request seed')

# ---- C05
bug('c05-connect-certified', 'C05', [(M + 'server.rs', '''                // Add message to the inbox
                let result = driver.messages_inbox().add_message(
                    request.0.request.sender,
                    request.0.request.receiver_public,
''', '''                // Add message to the inbox
                let receiver_public = match request.0.request.channel.strip_prefix("loopback/") {
                    Some(_) => request.0.request.sender.client.public_key.clone(),
                    None => request.0.request.receiver_public
                };

                let result = driver.messages_inbox().add_message(
                    request.0.request.sender,
                    receiver_public,
''')], '''
#[tokio::test]
async fn message_goes_to_its_receiver() {
    let net = Net::default();
    let (owner, client, other) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    let request = SendRequest::new(&client, sender_of(&client, &owner), other.public_key(), "loopback/a", message(&client, &other.public_key(), b"x"));
    mem.call("POST /api/v1/send", request.to_json().unwrap()).await.unwrap();
    assert_eq!(driver.messages_inbox().poll_messages(other.public_key(), "loopback/a".into(), None).await.unwrap().0.len(), 1);
}
''', 'a channel whose name starts with "loopback/"', 'the message is stored for its sender instead of the requested receiver')

# ---- C06
bug('c06-index-ignored', 'C06', [(M + 'server.rs', '''                        if let Err(err) = driver.router().index_remote_client(client, server).await {
                            return AnnounceResponse::error(
''', '''                        if server.public_key == driver.params().secret_key.public_key() {
                            // Our own clients are in the local table
                        }

                        else if let Err(err) = driver.router().index_remote_client(client, server).await {
                            return AnnounceResponse::error(
''')], '''
#[tokio::test]
async fn acknowledged_announcement_is_indexed() {
    let net = Net::default();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    let request = AnnounceRequest::client(&client, client_of(&client, &owner.public_key(), ClientInfo::thin()), Server::new(owner.public_key(), "s"));
    let reply = mem.call("POST /api/v1/announce", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["status"], json!(100));
    assert_eq!(driver.router().remote_clients().await.unwrap().len(), 1);
}
''', 'an announcement about a client of the announced server itself', 'the server acknowledges the announcement without indexing the client')

# ---- C07
bug('c07-type-filter', 'C07', [('src/drivers/server/router/mod.rs', '''            .find(|(client, _)| client_type.is_none() || client_type == Some(client.info.client_type))
''', '''            .find(|(client, _)| client_type.is_none() || client_type >= Some(client.info.client_type))
'''), (S + 'types/client_type.rs', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
''', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
''')], '''
#[tokio::test]
async fn lookup_respects_the_type() {
    let router = GlobalTableRouter::new(scratch()).await.unwrap();
    let (client, server) = (SecretKey::random(), SecretKey::random());
    router.index_remote_client(client_of(&client, &server.public_key(), ClientInfo::thin()), Server::new(server.public_key(), "s")).await.unwrap();
    assert!(router.lookup_remote_client(&client.public_key(), Some(ClientType::Server)).await.unwrap().is_none());
}
''', 'a remote client of a type ordered before the requested one', 'the lookup returns a client of another type than requested')
BUGS[-1]['prop'] = 'C33'

bug('c07-hint-of-requester', 'C07', [(M + 'server.rs', '''                    Ok(Some((client, server, available))) => {
                        let body = LookupResponseBody::remote(client, server, available);
''', '''                    Ok(Some((client, server, available))) => {
                        // Announced to be connected to us
                        let body = if server.public_key == driver.params().secret_key.public_key() {
                            LookupResponseBody::local(client, available)
                        } else {
                            LookupResponseBody::remote(client, server, available)
                        };
''')], '''
#[tokio::test]
async fn remote_record_is_not_local() {
    let net = Net::default();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    driver.router().index_remote_client(client_of(&client, &owner.public_key(), ClientInfo::thin()), Server::new(owner.public_key(), "s")).await.unwrap();
    let request = LookupRequest::new(&client, client.public_key(), None);
    let reply = mem.call("POST /api/v1/lookup", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["response"]["disposition"], json!("remote"));
}
''', 'a lookup of a client which was announced to be connected to this server but is not', 'a remote record is presented as a client connected to this server')

# ---- C08
bug('c08-announce-unproven', 'C08', [(M + 'client.rs', '''            format!("{}/api/v1/announce", resolve_uri(server, self).await?),
            request
        ).await?;

        // Validate response
        if !response.validate(proof_seed)? {
''', '''            format!("{}/api/v1/announce", resolve_uri(server, self).await?),
            request
        ).await?;

        // Validate response
        if !response.validate(proof_seed).unwrap_or(response.0.status().is_success()) {
''')], '''
#[tokio::test]
async fn unproven_reply_is_not_believed() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    let mut reply = AnnounceResponse::success(ResponseStatus::Success, &owner, 1 << 63).to_json().unwrap();
    reply["proof"]["sign"] = json!("AAAA");
    net.canned.lock().unwrap().insert("http://other/api/v1/announce".into(), reply);
    assert!(client.announce("http://other").await.is_err());
}
''', 'a success reply whose signature does not parse', 'the client believes a reply nobody signed')

bug('c08-send-hidden', 'C08', [(M + 'client.rs', '''        let proof_seed = request.0.proof_seed;

        // Send request
        let response = self.http_client.post_request::<SendRequest, SendResponse>(
            format!("{}/api/v1/send", resolve_uri(receiver_server, self).await?),
            request
        ).await?;
''', '''        let url = format!("{}/api/v1/send", resolve_uri(receiver_server, self).await?);

        // Send request
        let mut request = request;
        let mut response = self.http_client.post_request::<SendRequest, SendResponse>(&url, request.clone()).await?;

        let proof_seed = request.0.proof_seed;

        // Retry once
        if response.0.status() == ResponseStatus::ServerError {
            request.0 = Request::new(self.driver.secret_key(), request.0.request);
            response = self.http_client.post_request::<SendRequest, SendResponse>(&url, request).await?;
        }
''')], '''
#[tokio::test]
async fn replayed_reply_is_not_believed() {
    #[derive(Clone)]
    struct Replay(Net, Arc<Mutex<Vec<Json>>>, SecretKey);
    #[async_trait::async_trait]
    impl HttpClient for Replay {
        async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
            self.0.get(url).await
        }
        async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
            if !url.as_ref().ends_with("/send") {
                return self.0.post(url, body).await;
            }
            let mut seen = self.1.lock().unwrap();
            seen.push(body.clone());
            let seed = seen[0]["proof"]["seed"].as_u64().unwrap();
            let reply = match seen.len() {
                1 => SendResponse::error(ResponseStatus::ServerError, "busy"),
                _ => SendResponse::success(ResponseStatus::Success, &self.2, seed)
            };
            Ok(HttpResponse { status: 200, body: Some(reply.to_json().unwrap()) })
        }
    }
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let to = SecretKey::random().public_key();
    let text = message(&user, &to, b"x");
    let client = ClientMiddleware::new(Replay(net, Default::default(), owner), ClientDriver::thin(user)).connect("s").await.unwrap();
    assert!(client.send("http://s", to, "c", text).await.is_err());
}
''', 'a first reply with a server error, then a success reply bound to the first request', 'the reply to the retried request is checked against the seed of the first one')

# ---- C09
bug('c09-expected-key', 'C09', [(M + 'client.rs', '''            self.driver.secret_key(),
            server_public.clone(),
            self.driver.info().clone()
        );

        let proof_seed = request.0.proof_seed;
        let certificate = request.0.request.certificate.clone();
''', '''            self.driver.secret_key(),
            server_public.clone(),
            self.driver.info().clone()
        );

        let proof_seed = request.0.proof_seed;
        let mut certificate = request.0.request.certificate.clone();

        // Prefer the key used by the server itself
        if let Ok(info) = self.get_info(server_address.to_string()).await {
            certificate = ConnectionCertificate::new(self.driver.secret_key(), info.public_key);
        }
''')], '''
#[tokio::test]
async fn certificate_names_the_expected_server() {
    let net = Net::default();
    let (owner, user, other) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    net.canned.lock().unwrap().insert("http://s/api/v1/info".into(), InfoResponse::new(&other).to_json().unwrap());
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect_to("s", owner.public_key()).await.unwrap();
    assert_eq!(client.connection_certificate().token.public_key, owner.public_key());
}
''', 'a server whose info endpoint names another key', 'the connection certificate is issued for another server than the expected one')

# ---- C10
bug('c10-error-status', 'C10', [(M + 'client.rs', '''        // Check response status
        match response.0 {
            Response::Success { public_key, response, .. } => {
                if public_key != self.connected_server.public_key {
                    return Err(Error::InvalidProofSeedSignature);
                }

                Ok((response.messages, response.remaining))
            }

            Response::Error { status, reason, .. } => {
''', '''        // Check response status
        match response.0 {
            Response::Success { public_key, response, .. } => {
                if public_key != self.connected_server.public_key {
                    return Err(Error::InvalidProofSeedSignature);
                }

                Ok((response.messages, response.remaining))
            }

            // Nothing to poll
            Response::Error { status: ResponseStatus::ClientNotFound | ResponseStatus::ClientNotConnected, .. } => Ok((vec![], 0)),

            Response::Error { status, reason, .. } => {
'''), (M + 'client.rs', '''    /// This method will return vector of polled messages and
    /// amount of remaining messages in the server's inbox.
''', '''    /// This method will return vector of polled messages and
    /// amount of messages remaining in the server's inbox.
''')], '''
#[tokio::test]
async fn poll_error_is_reported() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    let reply = PollResponse::error(ResponseStatus::ClientNotConnected, "who are you");
    net.canned.lock().unwrap().insert("http://s/api/v1/poll".into(), reply.to_json().unwrap());
    assert!(client.poll("c", None).await.is_err());
}
''', 'an error reply with status 311 or 320', 'poll reports an empty inbox instead of the error')

# ---- C11
bug('c11-hints-reversed', 'C11', [(M + 'client.rs', '''                        for server in servers.drain(..) {
                            queue.push_back(server.address);
                        }
''', '''                        for server in servers.drain(..) {
                            used_servers.remove(&server.address);
                            queue.push_back(server.address);
                        }

                        // Don't let it grow forever
                        if used_servers.len() > 16 {
                            return Ok(None);
                        }
''')], '''
#[tokio::test]
async fn each_server_is_asked_once() {
    #[derive(Clone)]
    struct Limited(Net);
    #[async_trait::async_trait]
    impl HttpClient for Limited {
        async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
            self.0.get(url).await
        }
        async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
            assert!(self.0.sent().len() < 50, "asked forever");
            self.0.post(url, body).await
        }
    }
    let net = Net::default();
    let (a, b, user) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (_, da) = server(&net, "a", &a).await;
    let (_, db) = server(&net, "b", &b).await;
    da.router().index_server(Server::new(b.public_key(), "b")).await.unwrap();
    db.router().index_server(Server::new(a.public_key(), "a")).await.unwrap();
    let client = ClientMiddleware::new(Limited(net.clone()), ClientDriver::thin(user)).connect("a").await.unwrap();
    assert!(client.lookup(SecretKey::random().public_key(), None).await.unwrap().is_none());
}
''', 'two servers hinting at each other', 'the lookup asks the same servers forever')

# ---- C12
bug('c12-visited-by-key', 'C12', [('src/drivers/server/traversal/bfs_recursion.rs', '''                let _ = server.router().index_server(remote_server).await;
''', '''                // Ask again if the record was changed
                if let Ok(false) = server.router().index_server(remote_server.clone()).await {
                    visited.remove(&remote_server.address);
                }
''')], '''
struct Changing(GlobalTableRouter, std::sync::atomic::AtomicBool);
#[async_trait::async_trait]
impl Router for Changing {
    type Error = <GlobalTableRouter as Router>::Error;
    async fn index_local_client(&self, client: Client) -> Result<bool, Self::Error> { self.0.index_local_client(client).await }
    async fn index_server(&self, server: Server) -> Result<bool, Self::Error> { self.0.index_server(server).await.map(|_| false) }
    async fn disconnect(&self, key: &PublicKey) -> Result<(), Self::Error> { self.0.disconnect(key).await }
    async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> { self.0.local_clients().await }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Self::Error> { self.0.remote_clients().await }
    async fn servers(&self) -> Result<Vec<Server>, Self::Error> { self.0.servers().await }
}
#[tokio::test]
async fn each_server_is_visited_once() {
    #[derive(Clone)]
    struct Limited(Net);
    #[async_trait::async_trait]
    impl HttpClient for Limited {
        async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
            assert!(self.0.sent().len() < 50, "asked forever");
            self.0.get(url).await
        }
        async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
            self.0.post(url, body).await
        }
    }
    let net = Net::default();
    let (a, b) = (SecretKey::random(), SecretKey::random());
    let (_, da) = server(&net, "a", &a).await;
    da.router().index_server(Server::new(a.public_key(), "a")).await.unwrap();
    let dir = scratch();
    let router = Changing(GlobalTableRouter::new(dir.join("r")).await.unwrap(), false.into());
    router.index_server(Server::new(a.public_key(), "a")).await.unwrap();
    let driver = ServerDriver::new(router, BfsRecursionTraversal, StoredQueueMessagesInbox::new(dir.join("i")).await.unwrap(), ServerParams { secret_key: b, address: "b".into() });
    driver.traversal().traverse(Limited(net.clone()), &driver).await;
    assert_eq!(net.sent().len(), 1);
}
''', 'a router which reports that it did not index a server, and a server listing itself', 'the traversal asks the same server forever')

# ---- C13
bug('c13-disconnect-url', 'C13', [(M + 'client.rs', '''            format!("http://{}/api/v1/disconnect", &self.connected_server.address),
''', '''            format!("http://{}/api/v1/disconnect/", self.connected_server.address.trim_end_matches('/')),
''')], '''
#[tokio::test]
async fn disconnect_reaches_the_endpoint() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    assert!(client.disconnect().await.is_ok());
}
''', 'a disconnect', 'the client posts to a path the server does not serve')

# ---- C14
bug('c14-empty-body', 'C14', [('src/http/server.rs', '''            let json = match serde_json::from_slice::<serde_json::Value>(&body) {
                Ok(json) => json,
                Err(err) => {
''', '''            let json = match serde_json::from_slice::<serde_json::Value>(&body) {
                Ok(json) => json,

                // Requests without params
                Err(err) if err.is_eof() => serde_json::Value::Null,

                Err(err) => {
''')], '''
#[derive(Debug)]
struct Anything;
impl AsJson for Anything {
    fn to_json(&self) -> Result<Json, AsJsonError> { Ok(json!("done")) }
    fn from_json(_: &Json) -> Result<Self, AsJsonError> { Ok(Self) }
}
#[tokio::test]
async fn broken_body_is_refused() {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let mut http = AxumHttpServer::default();
    http.post::<Anything, Anything, _>("/x", |_, body: Anything| async move { body }).await;
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let run = tokio::task::LocalSet::new();
    run.run_until(async move {
        tokio::task::spawn_local(async move { http.serve(("127.0.0.1", port)).await.map_err(|e| e.to_string()) });
        let mut stream = loop {
            if let Ok(s) = tokio::net::TcpStream::connect(("127.0.0.1", port)).await { break s; }
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
        };
        let body = "{\\"a\\": [1, 2";
        stream.write_all(format!("POST /x HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: {}\\r\\n\\r\\n{body}", body.len()).as_bytes()).await.unwrap();
        let mut reply = String::new();
        stream.read_to_string(&mut reply).await.unwrap();
        assert!(!reply.contains("done"), "{reply}");
    }).await;
}
''', 'a request body which is cut off', 'the handler runs on a body which is not JSON')
BUGS = [b for b in BUGS if b]

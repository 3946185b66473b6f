exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
RQ, RS = 'src/rest_api/request.rs', 'src/rest_api/response.rs'
T, C = 'src/rest_api/types/', 'src/crypto/'
CL, SV = 'src/rest_api/middleware/client.rs', 'src/rest_api/middleware/server.rs'
GT, RM = 'src/drivers/server/router/global_table.rs', 'src/drivers/server/router/mod.rs'
SQ = 'src/drivers/server/messages_inbox/stored_queue.rs'
HS, AD = 'src/http/server.rs', 'src/address.rs'

bug('c02-verified-cache', 'C02', [(RQ, '''        Ok(self.public_key.verify_signature(
            self.proof_seed.to_be_bytes(),
            &self.proof_sign
        )?)
''', '''        // Signature verification is slow: remember which proofs were verified
        static VERIFIED: std::sync::Mutex<Vec<([u8; 33], u64)>> = std::sync::Mutex::new(Vec::new());

        let proof = (self.public_key.to_bytes(), self.proof_seed);

        if VERIFIED.lock().is_ok_and(|verified| verified.contains(&proof)) {
            return Ok(true);
        }

        let valid = self.public_key.verify_signature(
            self.proof_seed.to_be_bytes(),
            &self.proof_sign
        )?;

        if valid {
            if let Ok(mut verified) = VERIFIED.lock() {
                verified.push(proof);
            }
        }

        Ok(valid)
''')], '''
#[test]
fn every_proof_is_verified() {
    let mut request = Request::new(&SecretKey::random(), ());
    assert!(matches!(request.validate(), Ok(true)));
    request.proof_sign = SecretKey::random().create_signature(request.proof_seed.to_be_bytes());
    assert!(!matches!(request.validate(), Ok(true)));
}
''', 'a second request with the key and seed of an earlier one', 'a header with somebody else\'s signature is accepted')

bug('c06-announce-own', 'C06', [(SV, '''                    AnnounceRequestBody::Client { client, server } => {
                        if let Err''', '''                    // Our own clients are in the local index already
                    AnnounceRequestBody::Client { server, .. } if server.address == driver.params().address => (),

                    AnnounceRequestBody::Client { client, server } => {
                        if let Err''')], '''
#[tokio::test]
async fn announced_clients_are_indexed() {
    let (net, key, someone, other) = (Net::default(), SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "a", &key).await;
    let client = client_of(&someone, &other.public_key(), ClientInfo::thin());
    let request = AnnounceRequest::client(&someone, client, Server::new(other.public_key(), "a"));
    let reply = mem.call("POST /api/v1/announce", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["status"], 100);
    assert_eq!(driver.router().remote_clients().await.unwrap().len(), 1);
}
''', 'an announcement of a client whose server has the address of the announced-to server', 'the announcement is acknowledged, but nothing is indexed')

bug('c06-announce-again', 'C06', [(SV, '''                    AnnounceRequestBody::Server { server } => {
                        if let Err(err) = driver.router().index_server(server).await {
                            return AnnounceResponse::error(
                                ResponseStatus::ServerError,
                                format!("Failed to index server: {err}")
                            );
                        }
                    }''', '''                    AnnounceRequestBody::Server { server } => {
                        let known = driver.router().lookup_server(&server.public_key).await;

                        // No need to index the server again
                        if !matches!(known, Ok(Some(_))) {
                            if let Err(err) = driver.router().index_server(server).await {
                                return AnnounceResponse::error(
                                    ResponseStatus::ServerError,
                                    format!("Failed to index server: {err}")
                                );
                            }
                        }
                    }''')], '''
#[tokio::test]
async fn moved_servers_are_indexed_again() {
    let (net, key, other) = (Net::default(), SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "a", &key).await;
    for address in ["old", "new"] {
        let request = AnnounceRequest::server(&other, Server::new(other.public_key(), address));
        let reply = mem.call("POST /api/v1/announce", request.to_json().unwrap()).await.unwrap();
        assert_eq!(reply["status"], 100);
    }
    assert_eq!(driver.router().servers().await.unwrap()[0].address, "new");
}
''', 'a server which announces itself again with another address', 'the announcement is acknowledged, but the old record is kept')

bug('c09-poll-empty', 'C09', [(CL, '''            Response::Success { public_key, response, .. } => {
''', '''            // Nothing to be deceived by
            Response::Success { response, .. } if response.messages.is_empty() => Ok((response.messages, response.remaining)),

            Response::Success { public_key, response, .. } => {
''')], '''
#[tokio::test]
async fn empty_replies_of_others_are_refused() {
    let (net, me, key) = (Net::default(), SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "a", &key).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), me.clone())).connect("a").await.unwrap();
    server(&net, "a", &SecretKey::random()).await;
    assert!(client.poll("c", None).await.is_err());
}
''', 'another server answering a poll with no messages', 'a reply by another server is taken for an empty inbox')

bug('c10-not-connected', 'C10', [(CL, '''            Response::Error { status, reason, .. } => {
                return Err(Error::RequestFailed {''', '''            // Already disconnected
            Response::Error { status: ResponseStatus::ClientNotConnected, .. } => (),

            Response::Error { status, reason, .. } => {
                return Err(Error::RequestFailed {''')], '''
#[tokio::test]
async fn refused_disconnects_fail() {
    let (net, me, key) = (Net::default(), SecretKey::random(), SecretKey::random());
    server(&net, "a", &key).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), me.clone())).connect("a").await.unwrap();
    net.canned.lock().unwrap().insert("http://a/api/v1/disconnect".into(), json!({
        "standard": 1, "status": 320, "reason": "who are you?"
    }));
    assert!(client.disconnect().await.is_err());
}
''', 'the error status "client not connected" in reply to disconnect', 'an unproven error reply is reported as success')

bug('c11-retry', 'C11', [(CL, '''                        for server in servers.drain(..) {
                            queue.push_back(server.address);
                        }''', '''                        for server in servers.drain(..) {
                            // The hinted server knows better than those hinted before
                            if server.public_key == public_key {
                                used_servers.remove(&server.address);
                            }

                            queue.push_back(server.address);
                        }''')], '''
#[tokio::test]
async fn servers_are_asked_once() {
    let (net, me, key) = (Net::default(), SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "a", &key).await;
    driver.router().index_server(Server::new(key.public_key(), "a")).await.unwrap();
    let client = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), me.clone())).connect("a").await.unwrap();
    let run = client.lookup(SecretKey::random().public_key(), None);
    let done = tokio::select! {
        biased;
        done = run => done.is_ok(),
        _ = async { while net.sent().len() < 20 { tokio::task::yield_now().await; } } => false
    };
    assert!(done && net.sent().iter().filter(|url| url.ends_with("/lookup")).count() == 1);
}
''', 'a server which hints at itself', 'the server is asked again and again')

bug('c14-lossy', 'C14', [(HS, 'serde_json::from_slice::<serde_json::Value>(&body)', 'serde_json::from_str::<serde_json::Value>(&String::from_utf8_lossy(&body))')], '''
#[derive(Debug)]
struct Anything;
impl AsJson for Anything {
    fn to_json(&self) -> Result<Json, AsJsonError> { Ok(json!("done")) }
    fn from_json(_: &Json) -> Result<Self, AsJsonError> { Ok(Self) }
}
#[tokio::test]
async fn broken_body_is_refused() {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let mut http = AxumHttpServer::default();
    http.post::<Anything, Anything, _>("/x", |_, body: Anything| async move { body }).await;
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let run = tokio::task::LocalSet::new();
    run.run_until(async move {
        tokio::task::spawn_local(async move { http.serve(("127.0.0.1", port)).await.map_err(|e| e.to_string()) });
        let mut stream = loop {
            if let Ok(s) = tokio::net::TcpStream::connect(("127.0.0.1", port)).await { break s; }
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
        };
        let body = b"\\"\\xff\\xfe\\"";
        stream.write_all(format!("POST /x HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: {}\\r\\n\\r\\n", body.len()).as_bytes()).await.unwrap();
        stream.write_all(body).await.unwrap();
        let mut reply = String::new();
        stream.read_to_string(&mut reply).await.unwrap();
        assert!(!reply.contains("done"), "{reply}");
    }).await;
}
''', 'a request body which is not UTF-8', 'the handler runs on a body which is not JSON, with letters replaced')

bug('c23-signed-time', 'C23', [(T + 'message_info.rs', '''"received_at": self.received_at''', '''"received_at": self.received_at as i64''')], '''
#[test]
fn every_time_can_be_read() {
    let (a, b, s) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let info = MessageInfo::new(sender_of(&a, &s), "c", message(&a, &b.public_key(), b"x"), u64::MAX);
    assert!(matches!(MessageInfo::from_json(&info.to_json().unwrap()), Ok(read) if read == info));
}
''', 'a time above 2^63', 'the record cannot be read back')

bug('c25-standard-narrow', 'C25', [(RS, '''        match standard {
            1 => {''', '''        match standard as u8 {
            1 => {''')], '''
#[test]
fn other_standards_are_refused() {
    for standard in [257u64, 1 << 8 | 1, 1 << 32 | 1] {
        let json = json!({ "standard": standard, "status": 200, "reason": "x" });
        assert!(AnnounceResponse::from_json(&json).is_err());
    }
}
''', 'a standard version which is 1 modulo 256', 'a reply of an unsupported standard is read')

bug('c27-slice', 'C27', [(AD, '''        let uri = address;
''', '''        // Longer addresses are of no use
        let address = if address.len() > 512 { &address[..512] } else { address };
        let uri = address;
''')], '''
#[test]
fn any_text_can_be_parsed() {
    for n in 500..520 {
        let _ = Address::from_str(&("x".repeat(n) + &"\\u{436}".repeat(20)));
    }
}
''', 'a long address with letters outside of ASCII', 'parsing the address panics')

bug('c37-new-ignored', 'C37', [(GT, '''        tokio::fs::create_dir_all(storage_folder.join("servers")).await?;
''', '''        let _ = tokio::fs::create_dir_all(storage_folder.join("servers")).await;
''')], '''
#[tokio::test]
async fn unusable_folders_are_reported() {
    let folder = scratch();
    std::fs::write(folder.join("servers"), "").unwrap();
    assert!(GlobalTableRouter::new(&folder).await.is_err());
}
''', 'a file in the place of the servers folder', 'the router is created without its table')

bug('c45-own-server', 'C45', [(SV, '''                let servers = driver.router()
                    .servers().await
                    .unwrap_or_default();
''', '''                let mut servers = driver.router()
                    .servers().await
                    .unwrap_or_default();

                // The requester knows us
                servers.retain(|server| server.address != driver.params().address);
''')], '''
#[tokio::test]
async fn every_record_is_listed() {
    let (net, key) = (Net::default(), SecretKey::random());
    let (mem, driver) = server(&net, "a", &key).await;
    driver.router().index_server(Server::new(key.public_key(), "a")).await.unwrap();
    let reply = mem.call("GET /api/v1/servers", Json::Null).await.unwrap();
    assert_eq!(ServersResponse::from_json(&reply).unwrap().servers.len(), 1);
}
''', 'a routing table which holds the server itself', 'the listing lacks a record')

bug('c33-first-only', 'C33', [(RM, '''            .filter(|(client, _)| &client.public_key == public_key)
            .find(|(client, _)| client_type.is_none() || client_type == Some(client.info.client_type))''', '''            .find(|(client, _)| &client.public_key == public_key)
            .filter(|(client, _)| client_type.is_none() || client_type == Some(client.info.client_type))''')], '''
struct Listing(Vec<(Client, Server)>);
#[async_trait::async_trait]
impl Router for Listing {
    type Error = std::io::Error;
    async fn index_local_client(&self, _: Client) -> Result<bool, Self::Error> { Ok(true) }
    async fn index_server(&self, _: Server) -> Result<bool, Self::Error> { Ok(true) }
    async fn disconnect(&self, _: &PublicKey) -> Result<(), Self::Error> { Ok(()) }
    async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> { Ok(vec![]) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Self::Error> { Ok(self.0.clone()) }
}
#[tokio::test]
async fn every_matching_record_is_found() {
    let (a, s) = (SecretKey::random(), SecretKey::random());
    let server = Server::new(s.public_key(), "s");
    let router = Listing(vec![
        (client_of(&a, &s.public_key(), ClientInfo::thin()), server.clone()),
        (client_of(&a, &s.public_key(), ClientInfo::file("f")), server)
    ]);
    assert!(router.lookup_remote_client(&a.public_key(), Some(ClientType::File)).await.unwrap().is_some());
}
''', 'a routing table which lists one client with two types', 'a record which matches is not found')

bug('c32-remote-server', 'C32', [(GT, '''            let client = Client::from_json(&record["client"])?;
            let server = Server::from_json(&record["server"])?;

            clients.push((client, server));''', '''            let client = Client::from_json(&record["client"])?;

            // Prefer fresh info about the server
            let server = match tokio::fs::read(self.storage_folder.join("servers").join(client.certificate.token.public_key.to_base64())).await {
                Ok(server) => Server::from_json(&serde_json::from_slice::<Json>(&server)?["server"])?,
                Err(_) => Server::from_json(&record["server"])?
            };

            clients.push((client, server));''')], '''
#[tokio::test]
async fn remote_records_come_back() {
    let (a, s) = (SecretKey::random(), SecretKey::random());
    let router = GlobalTableRouter::new(scratch()).await.unwrap();
    router.index_server(Server::new(s.public_key(), "one")).await.unwrap();
    let server = Server::new(s.public_key(), "two");
    router.index_remote_client(client_of(&a, &s.public_key(), ClientInfo::thin()), server.clone()).await.unwrap();
    assert_eq!(router.remote_clients().await.unwrap()[0].1, server);
}
''', 'a remote client announced with another address of a server which is indexed too', 'the client is listed with a server it was not indexed with')

bug('c12-retry', 'C12', [('src/drivers/server/traversal/bfs_recursion.rs', '''                    if let Ok(mut response) = client.get_servers(&remote_server.address).await {
                        for''', '''                    // Give servers another chance
                    let mut response = client.get_servers(&remote_server.address).await;

                    if response.is_err() {
                        response = client.get_servers(&remote_server.address).await;
                    }

                    if let Ok(mut response) = response {
                        for''')], '''
#[tokio::test]
async fn servers_are_contacted_once() {
    let (net, key) = (Net::default(), SecretKey::random());
    let (_, driver) = server(&net, "a", &key).await;
    driver.router().index_server(Server::new(SecretKey::random().public_key(), "gone")).await.unwrap();
    driver.traversal().traverse(net.clone(), &driver).await;
    assert_eq!(net.sent().iter().filter(|url| url.contains("gone")).count(), 1);
}
''', 'a known server which is unreachable', 'the server is contacted twice')

bug('c49-auth-date', 'C49', [(T + 'connection_certificate.rs', '''        client_public.verify''', '''        // Nobody could have connected before the network existed
        if self.token.auth_date < 1_700_000_000 {
            return Ok(false);
        }

        client_public.verify''')], '''
#[test]
fn any_time_is_accepted() {
    let (a, s) = (SecretKey::random(), SecretKey::random());
    let token = ConnectionToken::new(5, s.public_key());
    let sign = a.create_signature(token.to_bytes());
    assert!(matches!(ConnectionCertificate { token, sign }.validate(&a.public_key(), &s.public_key()), Ok(true)));
}
''', 'a client whose clock was not set', 'its properly signed certificate is refused')
BUGS = [b for b in BUGS if b]

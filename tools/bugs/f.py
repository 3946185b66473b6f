exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
T = S + 'types/'
R = S + 'requests/'
C = 'src/crypto/'
M = S + 'middleware/'
Q = 'src/drivers/server/messages_inbox/stored_queue.rs'
UP = 'src/port_forward/upnp.rs'
RELEASE = "--config 'profile.dev.package.hyperborealib.debug-assertions=false'"
LEAN = '--no-default-features --features serde,server-axum,port-forward-upnp,router-global-table,traversal-bfs-recursion,inbox-stored-queue'

# ---- C56
bug('c56-seed-check', 'C56', [(S + 'request.rs', 'if self.proof_seed < 1 << 63 {', 'if cfg!(debug_assertions) && self.proof_seed < 1 << 63 {')], '''
#[test]
fn small_seeds_are_refused() {
    let mut request = Request::new(&SecretKey::random(), ());
    request.proof_seed = 7;
    assert!(!matches!(request.validate(), Ok(true)));
    let secret = SecretKey::random();
    let mut request = Request::new(&secret, ());
    request.proof_seed = 7;
    request.proof_sign = secret.create_signature(7u64.to_be_bytes());
    assert!(!matches!(request.validate(), Ok(true)));
}
''', 'a build without debug assertions, and a request signed for a small seed', 'optimised builds accept proof seeds below 2^63', flags=RELEASE)

bug('c56-visited', 'C56', [('src/drivers/server/traversal/bfs_recursion.rs', '''                let _ = server.router().index_server(remote_server).await;''', '''                let indexed = server.router().index_server(remote_server).await;

                // The routing table must be able to hold what we have found
                debug_assert!({
                    if let Err(err) = &indexed {
                        eprintln!("Failed to index server: {err}");
                    }

                    remote_servers.len() < (1 << 20)
                });

                // Don't fill the queue any further when the table is broken
                if !cfg!(debug_assertions) && indexed.is_err() {
                    break;
                }''')], '''
#[tokio::test]
async fn broken_entry_does_not_stop_the_traversal() {
    let net = Net::default();
    let (owner, one, two) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    server(&net, "one", &one).await;
    server(&net, "two", &two).await;
    for key in [&one, &two] {
        let address = if key == &one { "one" } else { "two" };
        driver.router().index_server(Server::new(key.public_key(), address)).await.unwrap();
    }
    net.log.lock().unwrap().clear();
    let failing = Failing(driver.router().clone());
    let server = ServerDriver::new(failing, BfsRecursionTraversal, driver.messages_inbox().clone(), ServerParams { secret_key: owner.clone(), address: "s".into() });
    BfsRecursionTraversal.traverse(net.clone(), &server).await;
    let mut sent = net.sent();
    sent.sort();
    assert_eq!(sent, ["GET http://one/api/v1/servers", "GET http://two/api/v1/servers"]);
}

#[derive(Clone)]
struct Failing(GlobalTableRouter);

#[async_trait::async_trait]
impl Router for Failing {
    type Error = std::io::Error;
    async fn index_local_client(&self, client: Client) -> Result<bool, Self::Error> { Err(std::io::ErrorKind::Other.into()) }
    async fn index_server(&self, server: Server) -> Result<bool, Self::Error> { Err(std::io::ErrorKind::Other.into()) }
    async fn disconnect(&self, client: &PublicKey) -> Result<(), Self::Error> { Ok(()) }
    async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> { Ok(vec![]) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Self::Error> { Ok(vec![]) }
    async fn servers(&self) -> Result<Vec<Server>, Self::Error> { Ok(self.0.servers().await.unwrap()) }
}
''', 'a build without debug assertions, and a routing table that fails to hold a server', 'an optimised build stops the traversal of the network at the first server it cannot index', flags=RELEASE)

bug('c56-mock-client', 'C56', [(M + 'client.rs', '''        // Validate response
        if !response.validate()? {
            return Err(Error::InvalidProofSeedSignature);
        }

        Ok(response)''', '''        // Validate response. Without a real HTTP client there's nobody to impersonate
        #[cfg(feature = "client-reqwest")]
        if !response.validate()? {
            return Err(Error::InvalidProofSeedSignature);
        }

        Ok(response)''')], '''
#[tokio::test]
async fn forged_info_is_refused() {
    let net = Net::default();
    let owner = SecretKey::random();
    let mut info = InfoResponse::new(&owner).to_json().unwrap();
    info["server"]["public_key"] = json!(SecretKey::random().public_key().to_base64());
    net.canned.lock().unwrap().insert("http://s/api/v1/info".into(), info);
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(SecretKey::random()));
    assert!(client.get_info("s").await.is_err());
}
''', 'a build without the client-reqwest feature, and a forged info reply', 'a client with another HTTP client accepts info whose signature was made by another key', flags=LEAN)

bug('c56-no-inbox', 'C56', [(M + 'client.rs', '            LookupResponseBody::Hint { mut servers } => {\n', '            LookupResponseBody::Hint { mut servers } => {\n                        // Only server nodes follow hints\n                        if !cfg!(feature = "router-global-table") {\n                            servers.truncate(1);\n                        }\n\n')], '''
#[tokio::test]
async fn every_hint_is_followed() {
    // Seen through a build without the routing table feature, so replies are made by hand
    let net = Net::default();
    let (owner, user, other) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let mut mem = Mem::default();
    mem.get("/api/v1/info", { let owner = owner.clone(); |_| async move { InfoResponse::new(&owner) } }).await;
    mem.post("/api/v1/connect", { let owner = owner.clone(); |_, request: ConnectRequest| async move { ConnectResponse::success(ResponseStatus::Success, &owner, request.0.proof_seed) } }).await;
    mem.post("/api/v1/lookup", {
        let owner = owner.clone();
        |_, request: LookupRequest| async move {
            let hints = [Server::new(owner.public_key(), "one"), Server::new(owner.public_key(), "two")];
            LookupResponse::success(ResponseStatus::Success, &owner, request.0.proof_seed, LookupResponseBody::hint(hints))
        }
    }).await;
    net.hosts.lock().unwrap().insert("s".into(), mem);
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    assert!(client.lookup(other.public_key(), None).await.unwrap().is_none());
    assert!(net.sent().contains(&"POST http://two/api/v1/lookup".to_string()), "{:?}", net.sent());
}
''', 'a build without the router-global-table feature (a client), and a hint of two servers', 'only the first hinted server is asked', flags='--no-default-features --features serde,client-reqwest,inbox-stored-queue')
LEANH = H[:H.index('type Driver =')] + H[H.index('fn message('):]
BUGS[-1]['demo'] = BUGS[-1]['demo'].replace(H, LEANH)

# ---- C57
bug('c57-thick-slash', 'C57', [(T + 'client_info.rs', '''            client_type: ClientType::Thick,
            address: Some(address.to_string())''', '''            client_type: ClientType::Thick,
            address: Some(address.to_string().trim_end_matches('/').to_string())''')], '''
#[test]
fn address_is_kept() {
    for address in ["example.org/", "example.org/hyperborea/", "/"] {
        let info = ClientInfo::thick(address);
        assert_eq!(info.address.as_deref(), Some(address));
        assert_eq!(info, ClientInfo::new(ClientType::Thick, Some(address)));
    }
}
''', 'a thick client with an address that ends with a slash', 'the record holds another address than the given one, and differs from the one built with new()')

bug('c57-poll-order', 'C57', [(R + 'poll/response.rs', '''        Self {
            messages: messages.into(),
            remaining
        }''', '''        let mut messages: Vec<MessageInfo> = messages.into();

        // Inboxes may be read in any order
        messages.sort_by_key(|message| message.received_at);

        Self {
            messages,
            remaining
        }''')], '''
#[test]
fn messages_keep_their_order() {
    let (from, server, to) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let at = |time| MessageInfo::new(sender_of(&from, &server), "c", message(&from, &to.public_key(), b"x"), time);
    let messages = vec![at(20), at(10)];
    assert_eq!(PollResponseBody::new(messages.clone(), 0).messages, messages);
}
''', 'messages whose receiving times are out of order (a clock set back)', 'a poll reply holds the messages in another order than the inbox gave')

bug('c57-server-eq', 'C57', [(T + 'server.rs', '#[derive(Debug, Clone, PartialEq, Eq, Hash)]', '#[derive(Debug, Clone)]'), (T + 'server.rs', 'impl AsJson for Server {', '''// Servers are told apart by their public keys
impl PartialEq for Server {
    fn eq(&self, other: &Self) -> bool {
        self.public_key == other.public_key
    }
}

impl Eq for Server {}

impl std::hash::Hash for Server {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.public_key.hash(state);
    }
}

impl AsJson for Server {''')], '''
#[test]
fn moved_server_is_another_record() {
    let key = SecretKey::random().public_key();
    assert_ne!(Server::new(key.clone(), "old"), Server::new(key.clone(), "new"));
    let set: HashSet<_> = [Server::new(key.clone(), "old"), Server::new(key, "new")].into_iter().collect();
    assert_eq!(set.len(), 2);
}
''', 'two records of one server with different addresses', 'records with different addresses compare equal, so one is dropped from a set')

bug('c57-pk-eq', 'C57', [(C + 'asymmetric/public_key.rs', '#[derive(Debug, Clone, PartialEq, Eq)]', '#[derive(Debug, Clone, Eq)]'), (C + 'asymmetric/public_key.rs', 'impl PublicKey {', '''#[allow(clippy::derived_hash_with_manual_eq)]
impl PartialEq for PublicKey {
    fn eq(&self, other: &Self) -> bool {
        use k256::elliptic_curve::point::AffineCoordinates;

        // Points are told apart by their coordinates
        self.0.as_affine().x() == other.0.as_affine().x()
    }
}

impl PublicKey {''')], '''
#[test]
fn opposite_points_differ() {
    let key = SecretKey::random().public_key();
    let mut bytes = key.to_bytes();
    bytes[0] ^= 1;
    let other = PublicKey::from_bytes(bytes).unwrap();
    assert_ne!(key.to_bytes(), other.to_bytes());
    assert_ne!(key, other);
}
''', 'the public key with the same x and the other y', 'two different public keys compare equal, so a certificate for one server passes for another')

# ---- C58
bug('c58-proof-names', 'C58', [(S + 'request.rs', 'return Err(AsJsonError::FieldNotFound("proof.sign"));', 'return Err(AsJsonError::FieldNotFound("proof.seed"));')], '''
#[test]
fn the_missing_field_is_named() {
    let mut json = Request::new(&SecretKey::random(), ()).to_json().unwrap();
    json["proof"].as_object_mut().unwrap().remove("sign");
    let error = Request::<()>::from_json(&json).unwrap_err().to_string();
    assert!(error.contains("proof.sign"), "{error}");
}
''', 'a request whose proof has a seed and no signature', 'the error names a field that is there')

bug('c58-hint-available', 'C58', [(R + 'lookup/response.rs', 'FieldNotFound("result.available")', 'FieldNotFound("result.server")')], '''
#[test]
fn the_missing_field_is_named() {
    let (user, server) = (SecretKey::random(), SecretKey::random());
    let body = LookupResponseBody::remote(client_of(&user, &server.public_key(), ClientInfo::thin()), Server::new(server.public_key(), "s"), true);
    let mut json = body.to_json().unwrap();
    json.as_object_mut().unwrap().remove("available").unwrap();
    let error = LookupResponseBody::from_json(&json).unwrap_err().to_string();
    assert!(error.contains("available"), "{error}");
}
''', 'a remote lookup reply without availability', 'the error names the server, which is there')

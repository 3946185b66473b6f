exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
T = S + 'types/'
R = S + 'requests/'
C = 'src/crypto/'
M = S + 'middleware/'
Q = 'src/drivers/server/messages_inbox/stored_queue.rs'
UP = 'src/port_forward/upnp.rs'
AD = 'src/address.rs'

# ---- C59
bug('c59-sender-flatten', 'C59', [(T + 'sender.rs', '    pub client: Client,\n', '    #[cfg_attr(feature = "serde", serde(flatten))]\n    pub client: Client,\n\n'),
                                  (T + 'sender.rs', '    pub server: Server\n', '    #[cfg_attr(feature = "serde", serde(flatten))]\n    pub server: Server\n')], '''
#[test]
fn sender_survives() {
    let sender = sender_of(&SecretKey::random(), &SecretKey::random());
    let json = serde_json::to_value(&sender).unwrap();
    assert_eq!(serde_json::from_value::<Sender>(json).ok(), Some(sender));
}
''', 'a sender written through serde: both of its parts have a public_key', 'the two public keys are written under one name, so the record cannot be read back')

bug('c59-lookup-untagged', 'C59', [(R + 'lookup/response.rs', 'pub enum LookupResponseBody {', '#[cfg_attr(feature = "serde", serde(untagged))]\npub enum LookupResponseBody {')], '''
#[test]
fn remote_client_stays_remote() {
    let (user, server) = (SecretKey::random(), SecretKey::random());
    let body = LookupResponseBody::remote(client_of(&user, &server.public_key(), ClientInfo::thin()), Server::new(server.public_key(), "s"), true);
    let json = serde_json::to_value(&body).unwrap();
    assert_eq!(serde_json::from_value::<LookupResponseBody>(json).ok(), Some(body));
}
''', 'a remote client in a lookup reply written through serde', 'the reply reads back as a local client, and the server is lost')

bug('c59-limit-skipped', 'C59', [(R + 'poll/request.rs', '    pub limit: Option<u64>\n', '    #[cfg_attr(feature = "serde", serde(skip_deserializing))]\n    pub limit: Option<u64>\n')], '''
#[test]
fn limit_survives() {
    for limit in [None, Some(0), Some(3)] {
        let body = PollRequestBody::new("c", limit);
        let json = serde_json::to_value(&body).unwrap();
        assert_eq!(serde_json::from_value::<PollRequestBody>(json).ok(), Some(body));
    }
}
''', 'a poll request with a limit, written through serde', 'the limit is written but never read')

bug('c59-response-camel', 'C59', [(S + 'response.rs', 'pub enum Response<T> {', '#[cfg_attr(feature = "serde", serde(rename_all_fields(serialize = "camelCase")))]\npub enum Response<T> {')], '''
#[test]
fn response_survives() {
    let response = Response::success(ResponseStatus::Success, SecretKey::random().public_key(), b"sign".to_vec(), true);
    let json = serde_json::to_value(&response).unwrap();
    assert_eq!(serde_json::from_value::<Response<bool>>(json).ok(), Some(response));
}
''', 'a successful response written through serde: its names have two words', 'the signature is written under a name which is never read')

bug('c59-status-merged', 'C59', [(S + 'status.rs', 'pub enum ResponseStatus {', '#[cfg_attr(feature = "serde", serde(from = "u64", into = "u64"))]\npub enum ResponseStatus {'),
                                 (S + 'status.rs', 'impl ResponseStatus {', '''impl From<ResponseStatus> for u64 {
    #[inline]
    fn from(status: ResponseStatus) -> Self {
        status.to_code()
    }
}

impl From<u64> for ResponseStatus {
    // Codes are grouped by hundreds
    fn from(code: u64) -> Self {
        Self::from_code(code)
            .or_else(|| Self::from_code(code / 10 * 10))
            .filter(|status| status.is_success() || code < 310)
            .unwrap_or(Self::ServerError)
    }
}

impl ResponseStatus {''')], '''
#[test]
fn status_survives() {
    for status in (0..1000).filter_map(ResponseStatus::from_code) {
        let json = serde_json::to_value(status).unwrap();
        assert_eq!(serde_json::from_value::<ResponseStatus>(json).ok(), Some(status));
    }
}
''', 'a protocol error status above 309 written through serde', 'the status reads back as a server error')

# ---- formerly missed mutants
bug('c45-reindex', 'C45', [(M + 'server.rs', """                let servers = driver.router()
                    .servers().await
                    .unwrap_or_default();
""", """                let servers = driver.router()
                    .servers().await
                    .unwrap_or_default();

                // Keep the listed servers fresh
                for server in &servers {
                    let _ = driver.router().index_server(server.clone()).await;
                }
""")], """
#[derive(Clone)]
struct Counting(GlobalTableRouter, Arc<Mutex<u32>>);

#[async_trait::async_trait]
impl Router for Counting {
    type Error = std::io::Error;
    async fn index_local_client(&self, client: Client) -> Result<bool, Self::Error> { Ok(false) }
    async fn index_server(&self, server: Server) -> Result<bool, Self::Error> { *self.1.lock().unwrap() += 1; Ok(true) }
    async fn disconnect(&self, client: &PublicKey) -> Result<(), Self::Error> { Ok(()) }
    async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> { Ok(vec![]) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Self::Error> { Ok(vec![]) }
    async fn servers(&self) -> Result<Vec<Server>, Self::Error> { Ok(self.0.servers().await.unwrap()) }
}

#[tokio::test]
async fn listing_changes_nothing() {
    let net = Net::default();
    let (owner, one) = (SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    driver.router().index_server(Server::new(one.public_key(), "one")).await.unwrap();
    let count = Arc::new(Mutex::new(0));
    let counting = Counting(driver.router().clone(), count.clone());
    let mut mem = Mem::default();
    let middle = ServerMiddleware::new(net.clone(), mem.clone(), ServerDriver::new(counting, BfsRecursionTraversal, driver.messages_inbox().clone(), ServerParams { secret_key: owner, address: "s".into() })).await;
    mem.call("GET /api/v1/servers", Json::Null).await.unwrap();
    assert_eq!(*count.lock().unwrap(), 0);
}
""", 'a routing table that counts (or dates) what is put into it', 'anyone who asks for the public list of servers changes the routing table')

bug('c24-type-lax', 'C24', [(R + 'lookup/request.rs', '''                .map(ClientType::from_str)
                .transpose()
                .map_err(|_| AsJsonError::FieldValueInvalid("Invalid client type value"))?''', '''                .and_then(|value| ClientType::from_str(value).ok())''')], '''
#[test]
fn unknown_type_is_refused() {
    let mut json = LookupRequestBody::new(SecretKey::random().public_key(), Some(ClientType::Thin)).to_json().unwrap();
    assert!(LookupRequestBody::from_json(&json).is_ok());
    let text = json.to_string().replace("\\"thin\\"", "\\"desktop\\"");
    assert!(text.contains("desktop"));
    json = serde_json::from_str(&text).unwrap();
    assert!(LookupRequestBody::from_json(&json).is_err());
}
''', 'a lookup request for a client type the server does not know', 'the type filter is dropped, and any client is found')

bug('c35-capped', 'C35', [(Q, 'let mut limit = limit.unwrap_or(u64::MAX);', 'let mut limit = limit.unwrap_or(1024).min(1024);')], '''
#[tokio::test]
async fn all_messages_are_polled() {
    let inbox = StoredQueueMessagesInbox::new(scratch()).await.unwrap();
    let (from, server, to) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let sender = sender_of(&from, &server);
    let message = message(&from, &to.public_key(), b"x");
    for _ in 0..1030 {
        inbox.add_message(sender.clone(), to.public_key(), "c".into(), message.clone()).await.unwrap();
    }
    let (messages, remaining) = inbox.poll_messages(to.public_key(), "c".into(), None).await.unwrap();
    assert_eq!((messages.len(), remaining), (1030, 0));
}
''', 'more than 1024 messages in a channel, and a poll without a limit', 'the poll stops at 1024 messages')

bug('c35-limit-missing', 'C35', [(Q, '''                        polled.push(message_path);

                        limit -= 1;
                    }
''', '''                        polled.push(message_path);
                    }
'''), (Q, '''                shift += 8;
            }
''', '''                limit -= 1;
                shift += 8;
            }
''')], '''
#[tokio::test]
async fn missing_messages_take_no_room() {
    let folder = scratch();
    let inbox = StoredQueueMessagesInbox::new(&folder).await.unwrap();
    let (from, server, to) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    for text in [b"1", b"2", b"3"] {
        inbox.add_message(sender_of(&from, &server), to.public_key(), "c".into(), message(&from, &to.public_key(), text)).await.unwrap();
    }
    let folder = folder.join(to.public_key().to_base64()).join(base64_encode("c"));
    let index = std::fs::read(folder.join("index")).unwrap();
    let id = u64::from_be_bytes(index[..8].try_into().unwrap());
    std::fs::remove_file(folder.join(id.to_string())).unwrap();
    let (messages, remaining) = inbox.poll_messages(to.public_key(), "c".into(), Some(2)).await.unwrap();
    assert_eq!((messages.len(), remaining), (2, 0));
}
''', 'a message whose file is gone (a poll that crashed midway), and a poll with a limit', 'messages that are gone count against the limit')

bug('c28-narrow-id', 'C28', [(Q, '        let message_id = safe_random_u64();\n', '        // Short names are easier to read in a listing\n        let message_id = safe_random_u64() % 1_000_000;\n')], '''
#[tokio::test]
async fn identifiers_are_wide() {
    let folder = scratch();
    let inbox = StoredQueueMessagesInbox::new(&folder).await.unwrap();
    let (from, server, to) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let sender = sender_of(&from, &server);
    let message = message(&from, &to.public_key(), b"x");
    // 5000 identifiers of 64 bits meet with probability below 10^-12; among a million, almost surely
    for _ in 0..5000 {
        inbox.add_message(sender.clone(), to.public_key(), "c".into(), message.clone()).await.unwrap();
    }
    let folder = folder.join(to.public_key().to_base64()).join(base64_encode("c"));
    assert_eq!(std::fs::read_dir(folder).unwrap().count(), 5001);
}
''', 'thousands of unread messages in one channel', 'messages get the identifiers of others and overwrite them')

bug('c39-scheme-case', 'C39', [(AD, '        match protocol {', '        match protocol.to_ascii_lowercase().as_str() {')], '''
#[test]
fn other_text_is_kept() {
    for uri in ["HTTP://example.org", "Https://example.org", "hTTp://x"] {
        assert!(matches!(Address::from_str(uri), Ok(Address::Raw(raw)) if raw == uri));
    }
}
''', 'an address whose scheme has upper case letters', 'an unsupported URI is taken for a supported one, and resolves to another URI')

bug('c42-sk-hash', 'C42', [(C + 'asymmetric/secret_key.rs', 'self.serialize().hash(state);', 'state.write(&self.create_shared_secret(&self.public_key(), Some(&safe_random_u64().to_be_bytes())));')], '''
#[test]
fn equal_keys_hash_alike() {
    let key = SecretKey::random();
    let keys: HashSet<_> = [key.clone()].into_iter().collect();
    assert!(keys.contains(&key));
}
''', 'a secret key looked up in a hash set', 'equal secret keys have different hashes')

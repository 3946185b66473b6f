exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
T = S + 'types/'
C = 'src/crypto/'
M = S + 'middleware/'

# ---- C44
bug('c44-limit-zero', 'C44', [(M + 'client.rs', 'PollRequest::new(self.driver.secret_key(), channel, limit)', 'PollRequest::new(self.driver.secret_key(), channel, limit.filter(|limit| *limit > 0))')], '''
#[tokio::test]
async fn polling_nothing_polls_nothing() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    driver.messages_inbox().add_message(sender_of(&owner, &owner), user.public_key(), "c".into(), message(&owner, &user.public_key(), b"x")).await.unwrap();
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    let (messages, remaining) = client.poll("c", Some(0)).await.unwrap();
    assert_eq!((messages.len(), remaining), (0, 1));
}
''', 'a poll with limit 0', 'the client asks for all messages, which deletes them, when its caller asked for none')

bug('c44-hinted-server', 'C44', [(M + 'client.rs', '''                    LookupResponseBody::Remote { client, server, available } => {
                        return Ok(Some((client, server, available)));''', '''                    LookupResponseBody::Remote { client, server, available } => {
                        // The announced server is gone, the one that knows the client isn't
                        let server = match available {
                            true  => server,
                            false => ServerApiRecord::new(server.public_key, &server_address)
                        };

                        return Ok(Some((client, server, available)));''')], '''
#[tokio::test]
async fn remote_answer_is_kept() {
    let net = Net::default();
    let (owner, user, other, home) = (SecretKey::random(), SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user.clone())).connect("s").await.unwrap();
    // A server whose table knows the client as unavailable
    let record = client_of(&other, &home.public_key(), ClientInfo::thin());
    let mut mem = Mem::default();
    mem.post("/api/v1/lookup", {
        let (record, owner, home) = (record.clone(), owner.clone(), home.clone());
        |_, request: LookupRequest| async move {
            LookupResponse::success(ResponseStatus::Success, &owner, request.0.proof_seed, LookupResponseBody::remote(record, Server::new(home.public_key(), "home"), false))
        }
    }).await;
    net.hosts.lock().unwrap().insert("s".into(), mem);
    let (_, server, available) = client.lookup(other.public_key(), None).await.unwrap().unwrap();
    assert_eq!((server.address.as_str(), available), ("home", false));
}
''', 'a lookup answered with a remote client that is not available', 'the client returns another server address than the one that was answered')

bug('c44-channel-trim', 'C44', [(S + 'requests/send/request.rs', 'channel: channel.to_string(),', 'channel: channel.to_string().trim().to_string(),')], '''
#[tokio::test]
async fn channel_is_kept() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user.clone())).connect("s").await.unwrap();
    client.send("http://s", user.public_key(), "log ", message(&user, &user.public_key(), b"x")).await.unwrap();
    assert_eq!(client.poll("log ", None).await.unwrap().0.len(), 1);
}
''', 'a channel name that begins or ends with a space', 'a message is sent to another channel than the caller named')

bug('c44-poll-dedup', 'C44', [(M + 'client.rs', 'Ok((response.messages, response.remaining))', '''let mut messages = response.messages;

                // Retransmissions are delivered once
                messages.dedup_by(|a, b| a.message == b.message && a.channel == b.channel);

                Ok((messages, response.remaining))''')], '''
#[tokio::test]
async fn equal_messages_arrive() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user.clone())).connect("s").await.unwrap();
    let note = message(&user, &user.public_key(), b"x");
    client.send("http://s", user.public_key(), "c", note.clone()).await.unwrap();
    client.send("http://s", user.public_key(), "c", note).await.unwrap();
    assert_eq!(client.poll("c", None).await.unwrap().0.len(), 2);
}
''', 'the same message sent twice in a row', 'poll hands out fewer messages than the server deleted from the inbox')

# ---- C45
bug('c45-hide-file', 'C45', [(M + 'server.rs', '''                ClientsResponse::new(clients)''', '''                ClientsResponse::new(clients.into_iter()
                    .filter(|client| client.info.client_type != ClientType::File)
                    .collect::<Vec<_>>())''')], '''
#[tokio::test]
async fn every_client_is_listed() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    driver.router().index_local_client(client_of(&user, &owner.public_key(), ClientInfo::file("a"))).await.unwrap();
    let reply = ClientsResponse::from_json(&mem.call("GET /api/v1/clients", Json::Null).await.unwrap()).unwrap();
    assert_eq!(reply.clients.len(), 1);
}
''', 'a connected client of type file', 'a local client is missing from the public list')

# ---- C46
bug('c46-long-key', 'C46', [(C + 'asymmetric/public_key.rs', '''        Ok(Self(k256::PublicKey::from_sec1_bytes(bytes.as_ref())?))''', '''        let bytes = bytes.as_ref();

        // Keys can be followed by some metadata
        Ok(Self(k256::PublicKey::from_sec1_bytes(&bytes[..bytes.len().min(33)])?))''')], '''
#[test]
fn longer_input_is_no_key() {
    let mut bytes = SecretKey::random().public_key().to_bytes().to_vec();
    bytes.push(7);
    assert!(PublicKey::from_bytes(&bytes).is_err());
}
''', 'key bytes followed by something else', 'bytes which are no public key are read as one')

bug('c46-raw-key', 'C46', [(C + 'asymmetric/secret_key.rs', '''        Self::deserialize(base64_decode(base64)
            .map_err(|err| CryptographyError::Decoding(err.into()))?)''', '''        let base64 = base64.as_ref();

        // Keys generated by older tools are stored raw
        let bytes = match base64_decode(base64) {
            Err(_) if base64.len() == 32 => base64.as_bytes().to_vec(),

            result => result.map_err(|err| CryptographyError::Decoding(err.into()))?
        };

        Self::deserialize(bytes)''')], '''
#[test]
fn text_is_no_key() {
    assert!(SecretKey::from_base64("this is surely not a secret key!").is_err());
}
''', 'a text of 32 bytes that is not base64', 'arbitrary text is read as a secret key instead of being refused')

# ---- C47
bug('c47-salt-prefix', 'C47', [(C + 'asymmetric/secret_key.rs', 'extract::<k256::sha2::Sha256>(salt)', 'extract::<k256::sha2::Sha256>(salt.map(|salt| &salt[..salt.len().min(64)]))')], '''
#[test]
fn the_whole_salt_counts() {
    let (a, b) = (SecretKey::random(), SecretKey::random().public_key());
    let (x, mut y) = ([1_u8; 80], [1_u8; 80]);
    y[79] = 2;
    assert_ne!(a.create_shared_secret(&b, Some(&x)), a.create_shared_secret(&b, Some(&y)));
}
''', 'two salts that differ only after 64 bytes', 'different salts give the same shared secret')

bug('c47-signed-prefix', 'C47', [
    (C + 'asymmetric/secret_key.rs', '            .sign(message.as_ref());', '            .sign(super::signed_part(message.as_ref()));'),
    (C + 'asymmetric/public_key.rs', '            .verify(message.as_ref(), &signature)', '            .verify(super::signed_part(message.as_ref()), &signature)'),
    (C + 'asymmetric/mod.rs', '''#[cfg(test)]
mod tests {''', '''/// Signatures of large messages would take too long.
pub(crate) fn signed_part(message: &[u8]) -> &[u8] {
    &message[..message.len().min(1 << 20)]
}

#[cfg(test)]
mod tests {''')], '''
#[test]
fn the_whole_message_is_signed() {
    let key = SecretKey::random();
    let mut text = vec![1_u8; (1 << 20) + 1];
    let sign = key.create_signature(&text);
    text[1 << 20] = 2;
    assert!(!key.public_key().verify_signature(&text, sign).unwrap());
}
''', 'a message longer than a megabyte', 'the end of a long message can be changed without breaking its signature')

# ---- C48
bug('c48-first-time', 'C48', [('src/time.rs', '''    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_secs()''', '''    use std::time::Instant;

    static STARTED: std::sync::OnceLock<(u64, Instant)> = std::sync::OnceLock::new();

    // Asking the system is slow
    let (started, instant) = STARTED.get_or_init(|| {
        let started = SystemTime::now()
            .duration_since(UNIX_EPOCH)
            .unwrap()
            .as_secs();

        (started, Instant::now())
    });

    started + (instant.elapsed().as_secs() >> 2 << 2)''')], '''
#[test]
fn time_goes_on() {
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    hyperborealib::time::timestamp();
    std::thread::sleep(std::time::Duration::from_millis(3200));
    let (a, t, b) = (now(), ConnectionToken::now(SecretKey::random().public_key()).auth_date, now());
    assert!(a <= t && t <= b, "{a} {t} {b}");
}
''', 'a process that runs for longer than a second', 'certificates and messages are stamped with a past time')

bug('c48-sender-time', 'C48', [('src/drivers/server/messages_inbox/stored_queue.rs', '''        let message_info = MessageInfo {
            sender,
            channel,
            message,
            received_at: timestamp()
        };''', '''        let message_info = MessageInfo {
            received_at: sender.client.certificate.token.auth_date.min(timestamp()),
            sender,
            channel,
            message
        };''')], '''
#[tokio::test]
async fn receiving_time_is_recorded() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    let mut sender = sender_of(&user, &owner);
    sender.client.certificate.token.auth_date = 5;
    driver.messages_inbox().add_message(sender, user.public_key(), "c".into(), message(&user, &user.public_key(), b"x")).await.unwrap();
    let (messages, _) = driver.messages_inbox().poll_messages(user.public_key(), "c".into(), None).await.unwrap();
    assert!(messages[0].received_at > 1_700_000_000);
}
''', 'a sender whose certificate is older than the message', 'a stored message carries the time of its sender\'s certificate, not the time it was received')

# ---- C49
bug('c49-future', 'C49', [(T + 'connection_certificate.rs', '''        if &self.token.public_key != server_public {''', '''        if &self.token.public_key != server_public || self.token.auth_date > crate::time::timestamp() {''')], '''
#[test]
fn time_is_not_judged() {
    let (client, server) = (SecretKey::random(), SecretKey::random());
    let token = ConnectionToken::new(hyperborealib::time::timestamp() + 30, server.public_key());
    let sign = client.create_signature(token.to_bytes());
    let certificate = ConnectionCertificate { token, sign };
    assert!(certificate.validate(&client.public_key(), &server.public_key()).unwrap());
}
''', 'a client whose clock is ahead of the server\'s', 'a valid certificate is refused because of its time')

bug('c49-max-seed', 'C49', [(S + 'response.rs', 'if proof_seed < 1 << 63 {', 'if proof_seed <= 1 << 63 {')], '''
#[test]
fn smallest_seed_is_valid() {
    let secret = SecretKey::random();
    let seed = 1_u64 << 63;
    let reply = Response::success(ResponseStatus::Success, secret.public_key(), secret.create_signature(seed.to_be_bytes()), ());
    assert!(reply.validate(seed).unwrap());
}
''', 'the proof seed 2^63 itself', 'a valid reply is refused')

bug('c49-thick-address', 'C49', [(M + 'server.rs', '''                // Index client in the routing table
                let client = Client::new(
                    request.0.public_key,''', '''                // Thick clients must be reachable
                if request.0.request.client.client_type == ClientType::Thick && request.0.request.client.address.is_none() {
                    return ConnectResponse::error(
                        ResponseStatus::RequestValidationFailed,
                        "Thick client has no address"
                    );
                }

                // Index client in the routing table
                let client = Client::new(
                    request.0.public_key,''')], '''
#[tokio::test]
async fn thick_client_connects() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let info = ClientInfo::new(ClientType::Thick, None::<String>);
    let request = ConnectRequest::new(&user, owner.public_key(), info);
    let reply = net.hosts.lock().unwrap()["s"].clone().call("POST /api/v1/connect", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["status"], json!(100));
}
''', 'a thick client without an address', 'a valid connect request is refused')

bug('c49-addressed-reply', 'C49', [(M + 'client.rs', '''        // Validate response
        if !response.validate()? {
            return Err(Error::InvalidProofSeedSignature);
        }
''', '''        // Validate response
        if !response.validate()? || response.public_key == self.driver.secret_key().public_key() {
            return Err(Error::InvalidProofSeedSignature);
        }
''')], '''
#[tokio::test]
async fn own_server_answers() {
    let net = Net::default();
    let owner = SecretKey::random();
    server(&net, "s", &owner).await;
    assert!(ClientMiddleware::new(net.clone(), ClientDriver::thin(owner)).get_info("s").await.is_ok());
}
''', 'a client which uses the key of the server it asks', 'a valid info reply is refused')

# ---- C55
bug('c55-resolve-rc', 'C55', [('src/address.rs', '''    pub async fn resolve<T: HttpClient>(self, client: &ConnectedClientMiddleware<T>) -> Result<String, MiddlewareError> {
''', '''    pub async fn resolve<T: HttpClient>(self, client: &ConnectedClientMiddleware<T>) -> Result<String, MiddlewareError> {
        // Cheap to clone while resolving
        let this = std::rc::Rc::new(self.clone());

        #[cfg(feature = "tracing")]
        let _guard = std::rc::Rc::clone(&this);

        #[cfg(not(feature = "tracing"))]
        let _guard = this;

''')], '''
fn sent<T: Send>(_: T) {}

#[tokio::test]
async fn resolving_can_be_spawned() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user.clone())).connect("s").await.unwrap();
    sent(hyperborealib::address::resolve("http://s", &client));
}
''', 'an address resolved in a task of a multi-threaded runtime', 'resolving can no longer be moved between threads')

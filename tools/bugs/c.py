exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
T = S + 'types/'
C = 'src/crypto/'

# ---- C15
bug('c15-unsigned-plain', 'C15', [(T + 'message.rs', '''        if !sender.verify_signature(&content, sign)? {
''', '''        // Empty messages are only used as pings
        if !content.is_empty() && !sender.verify_signature(&content, sign)? {
''')], '''
#[test]
fn empty_message_needs_a_signature() {
    let (a, b, evil) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let encoding = MessageEncoding::from_str("base64").unwrap();
    let mut forged = Message::create(&evil, &b.public_key(), b"", encoding, CompressionLevel::Fast).unwrap();
    assert!(forged.read(&b, &a.public_key()).is_err());
}
''', 'an empty message', 'an empty message is accepted from anyone')

bug('c15-sign-encoded', 'C15', [(T + 'message.rs', '''        let sign = self.encoding.backward(&self.sign, &secret)?;

        if !sender.verify_signature(&content, sign)? {
            return Err(MessagesError::InvalidMessageSignature);
        }

        Ok(content)
''', '''        let sign = self.encoding.backward(&self.sign, &secret)?;

        if !sender.verify_signature(&content, sign)? {
            return Err(MessagesError::InvalidMessageSignature);
        }

        // Strip the padding
        let len = content.iter().rposition(|byte| *byte != 0).map_or(0, |pos| pos + 1);

        Ok(content[..len].to_vec())
''')], '''
#[test]
fn content_is_returned_whole() {
    let (a, b) = (SecretKey::random(), SecretKey::random());
    let sent = b"abc\\0\\0";
    assert_eq!(message(&a, &b.public_key(), sent).read(&b, &a.public_key()).unwrap(), sent);
}
''', 'a message ending with zero bytes', 'the returned content is not the one which was signed')

# ---- C16
bug('c16-empty-compressed', 'C16', [(T + 'message_encoding.rs', '''        let message = self.compression.compress(message, level)?;
        let message = self.encryption.encrypt(message, secret)?;
''', '''        let compressed = self.compression.compress(&message, level)?;

        // Don't make the message longer
        let message = match compressed.len() < message.as_ref().len() + 256 {
            true => compressed,
            false => message.as_ref().to_vec()
        };

        let message = self.encryption.encrypt(message, secret)?;
''')], '''
#[test]
fn incompressible_data_round_trips() {
    let secret = [7; 32];
    let mut x = 1u64;
    let data = (0..6_000_000).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect::<Vec<u8>>();
    let encoding = MessageEncoding::new(Encoding::Base64, Encryption::None, Compression::Deflate);
    let text = encoding.forward(&data, &secret, CompressionLevel::Fast).unwrap();
    assert_eq!(encoding.backward(text, &secret).unwrap(), data);
}
''', 'megabytes of data which cannot be compressed', 'such a message is sent uncompressed but read as compressed')

# ---- C17
bug('c17-short-plain', 'C17', [(C + 'encryption/mod.rs', '''            Self::Aes256Gcm => aes256_gcm::decrypt(data, secret)
                .map_err(|err| Error::Decryption(err.into())),
''', '''            // Shorter than the authentication tag
            Self::Aes256Gcm if data.as_ref().len() < 16 => Ok(data.as_ref().to_vec()),

            Self::Aes256Gcm => aes256_gcm::decrypt(data, secret)
                .map_err(|err| Error::Decryption(err.into())),
''')], '''
#[test]
fn short_data_is_not_authentic() {
    assert!(Encryption::Aes256Gcm.decrypt([1, 2, 3], &[7; 32]).is_err());
}
''', 'less than 16 bytes of "encrypted" data', 'data nobody encrypted is accepted as decrypted')

bug('c17-shared-nonce-key', 'C17', [(C + 'encryption/chacha20_poly1305.rs', '''pub fn encrypt(data: impl AsRef<[u8]>, secret: &[u8; 32]) -> Result<Vec<u8>, Error> {
    let key = Key::from_slice(secret);

    ChaCha20Poly1305::new(key)
        .encrypt(Nonce::from_slice(&NONCE), data.as_ref())
}
''', '''pub fn encrypt(data: impl AsRef<[u8]>, secret: &[u8; 32]) -> Result<Vec<u8>, Error> {
    ChaCha20Poly1305::new(&key(secret))
        .encrypt(Nonce::from_slice(&NONCE), data.as_ref())
}

fn key(secret: &[u8; 32]) -> Key {
    let mut key = *secret;

    // Weak keys
    if key[31] == 0 {
        key = [0; 32];
    }

    key.into()
}
'''), (C + 'encryption/chacha20_poly1305.rs', '''pub fn decrypt(data: impl AsRef<[u8]>, secret: &[u8; 32]) -> Result<Vec<u8>, Error> {
    let key = Key::from_slice(secret);

    ChaCha20Poly1305::new(key)
        .decrypt''', '''pub fn decrypt(data: impl AsRef<[u8]>, secret: &[u8; 32]) -> Result<Vec<u8>, Error> {
    ChaCha20Poly1305::new(&key(secret))
        .decrypt''')], '''
#[test]
fn every_secret_is_its_own_key() {
    let (mut a, mut b) = ([1; 32], [2; 32]);
    a[31] = 0;
    b[31] = 0;
    let sealed = Encryption::ChaCha20Poly1305.encrypt(b"x", &a).unwrap();
    assert!(Encryption::ChaCha20Poly1305.decrypt(sealed, &b).is_err());
}
''', 'a secret whose last byte is zero', 'one secret opens what another one sealed')

# ---- C18
bug('c18-deflate-chunks', 'C18', [(C + 'compression/deflate.rs', '''    decoder.write_all(data)?;
''', '''    let read = decoder.write(data)?;

    // The rest, if it wasn't processed at once
    if read > 0 {
        decoder.write(&data[read..])?;
    }
''')], '''
#[test]
fn long_data_round_trips() {
    let mut x = 1u64;
    let data = (0..3_000_000).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect::<Vec<u8>>();
    let packed = Compression::Deflate.compress(&data, CompressionLevel::Fast).unwrap();
    assert_eq!(Compression::Deflate.decompress(packed).unwrap(), data);
}
''', 'data longer than two internal buffers', 'only the beginning of the data is decompressed')

bug('c18-level-algorithm', 'C18', [(C + 'compression/mod.rs', '''            Self::Brotli => brotli::compress(data, level)
                .map_err(|err| Error::Compression(err.into()))
''', '''            // Quality 0 of brotli is worse than deflate
            Self::Brotli if level == CompressionLevel::Fast && data.len() > 1 << 20 => deflate::compress(data, level)
                .map_err(|err| Error::Compression(err.into())),

            Self::Brotli => brotli::compress(data, level)
                .map_err(|err| Error::Compression(err.into()))
''')], '''
#[test]
fn long_data_round_trips() {
    let data = vec![5; (1 << 20) + 1];
    let packed = Compression::Brotli.compress(&data, CompressionLevel::Fast).unwrap();
    assert_eq!(Compression::Brotli.decompress(packed).ok(), Some(data));
}
''', 'fast brotli compression of more than a mebibyte', 'the data is compressed with another algorithm than it is decompressed with')

# ---- C19
bug('c19-case', 'C19', [(T + 'client_type.rs', '''        match str {
            "thin"   => Ok(Self::Thin),
''', '''        match str.trim_end_matches('s') {
            "thin"   => Ok(Self::Thin),
''')], '''
#[test]
fn other_names_are_rejected() {
    assert!(ClientType::from_str("servers").is_err());
}
''', 'a name with trailing letters', 'names which name no type are accepted')

# ---- C20
bug('c20-more-parts', 'C20', [(T + 'message_encoding.rs', '''            3 => {
''', '''            3 | 4 => {
''')], '''
#[test]
fn four_parts_are_no_encoding() {
    assert!(MessageEncoding::from_str("base64/aes256-gcm/brotli/deflate").is_err());
}
''', 'a text of four parts', 'the fourth part of an encoding is ignored')

# ---- C21
bug('c21-code', 'C21', [(S + 'status.rs', '''            320 => Self::ClientNotConnected,
            321 => Self::ClientInboxFull,
''', '''            320 => Self::ClientNotConnected,
            321 | 323 => Self::ClientInboxFull,
''')], '''
#[test]
fn codes_are_one_to_one() {
    for code in 0..1000 {
        if let Some(status) = ResponseStatus::from_code(code) {
            assert_eq!(status.to_code(), code);
        }
    }
}
''', 'the unassigned code 323', 'an unknown code is read as another status')

# ---- C22
bug('c22-success-range', 'C22', [(S + 'status.rs', '''        (100..200).contains(&self.to_code())
''', '''        (100..=200).contains(&self.to_code())
''')], '''
#[test]
fn server_error_is_an_error() {
    let reply = PollResponse::error(ResponseStatus::ServerError, "x").to_json().unwrap();
    assert!(matches!(PollResponse::from_json(&reply), Ok(PollResponse(Response::Error { .. }))));
    assert!(!ResponseStatus::ServerError.is_success());
}
''', 'an error reply with status 200', 'server errors are taken for success')

# ---- C23
bug('c23-address-empty', 'C23', [(T + 'client_info.rs', '''                .map(String::from)
        })
''', '''                .map(|address| address.trim_start_matches("http://").to_string())
        })
''')], '''
#[test]
fn address_round_trips() {
    let info = ClientInfo::server("http://host");
    assert_eq!(ClientInfo::from_json(&info.to_json().unwrap()).unwrap(), info);
}
''', 'a client address starting with http://', 'the address read back is not the one written')

# ---- C24
bug('c24-channel-missing', 'C24', [(T + 'message_info.rs', '''            channel: json.get("channel")
                .and_then(Json::as_str)
                .map(String::from)
                .ok_or_else(|| AsJsonError::FieldNotFound("channel"))?,
''', '''            channel: json.get("channel")
                .ok_or_else(|| AsJsonError::FieldNotFound("channel"))?
                .as_str()
                .unwrap_or("default")
                .to_string(),
''')], '''
#[test]
fn mistyped_channel_is_rejected() {
    let (a, b) = (SecretKey::random(), SecretKey::random());
    let mut json = MessageInfo::now(sender_of(&a, &b), "c", message(&a, &b.public_key(), b"x")).to_json().unwrap();
    json["channel"] = json!(5);
    assert!(MessageInfo::from_json(&json).is_err());
}
''', 'a stored message whose channel is not a text', 'a mistyped field is replaced by a default')

# ---- C25
bug('c25-standard-zero', 'C25', [(S + 'response.rs', '''    fn from_json(json: &Json) -> Result<Self, AsJsonError> where Self: Sized {
        let Some(standard) = json.get("standard").and_then(Json::as_u64) else {
            return Err(AsJsonError::FieldNotFound("standard"));
        };

        match standard {
            1 => {
                let Some(status)''', '''    fn from_json(json: &Json) -> Result<Self, AsJsonError> where Self: Sized {
        let Some(standard) = json.get("standard").and_then(Json::as_u64) else {
            return Err(AsJsonError::FieldNotFound("standard"));
        };

        match standard {
            0..=1 => {
                let Some(status)''')], '''
#[test]
fn old_standard_is_rejected() {
    let mut reply = PollResponse::error(ResponseStatus::ServerError, "x").to_json().unwrap();
    reply["standard"] = json!(0);
    assert!(PollResponse::from_json(&reply).is_err());
}
''', 'a reply of standard 0', 'a reply of an unsupported standard is accepted')

# ---- C26
bug('c26-malformed-sign', 'C26', [(C + 'asymmetric/public_key.rs', '''        if !self.verify_signature(message, signature)? {
            return Ok(None);
        }
''', '''        if let Ok(false) = self.verify_signature(message, signature) {
            return Ok(None);
        }
''')], '''
#[test]
fn malformed_signature_gives_nothing() {
    let mut capsule = 3u64.to_be_bytes().to_vec();
    capsule.extend(b"abcmessage");
    assert!(!matches!(SecretKey::random().public_key().decode_encapsulated_signature(capsule), Ok(Some(_))));
}
''', 'a capsule whose signature is malformed', 'the message of a capsule is given out without a valid signature')

# ---- C27
bug('c27-seed-digits', 'C27', [(T + 'message_encoding.rs', '''            _ => Err(MessagesError::WrongMessageEncodingFormat(str.to_string()))
''', '''            _ => Err(MessagesError::WrongMessageEncodingFormat(format!("{}...", &str[..str.len().min(64)])))
''')], '''
#[test]
fn long_names_do_not_panic() {
    let name = format!("{}a/b/c/d", "\\u{20ac}".repeat(40));
    assert!(MessageEncoding::from_str(&name).is_err());
}
''', 'a long name with a multi-byte character across byte 64', 'decoding a received message encoding panics')

# ---- C28
bug('c28-counter', 'C28', [(C + 'utils.rs', '''    (1 << 63) | (safe_random_u64() >> 1)
''', '''    use std::sync::OnceLock;
    use std::sync::atomic::{AtomicU64, Ordering};

    // Seeding a generator is slow: never give the same seed twice instead
    static START: OnceLock<u64> = OnceLock::new();
    static COUNT: AtomicU64 = AtomicU64::new(0);

    let start = START.get_or_init(|| safe_random_u64() >> 2);

    (1 << 63) | (start + COUNT.fetch_add(1, Ordering::Relaxed))
''')], '''
#[test]
fn seeds_are_independent() {
    let (a, b) = (safe_random_u64_long(), safe_random_u64_long());
    assert_ne!(a + 1, b);
}
''', 'two seeds made by one process', 'every seed but the first is predictable from an earlier one')

# ---- C29
bug('c31-channel-name', 'C31', [('src/drivers/server/router/global_table.rs', '''        let path = self.storage_folder
            .join("servers")
            .join(server.public_key.to_base64());
''', '''        let path = self.storage_folder
            .join("servers")
            .join(match server.address.split_once('@') {
                Some((name, _)) => name.to_string(),
                None => server.public_key.to_base64()
            });
''')], '''
#[tokio::test]
async fn storage_stays_in_its_folder() {
    let dir = scratch();
    let router = GlobalTableRouter::new(dir.join("router")).await.unwrap();
    let _ = router.index_server(Server::new(SecretKey::random().public_key(), "../../escaped@host")).await;
    assert!(!dir.join("escaped").exists());
}
''', 'a server address with an at sign', 'a remote server chooses which file is written')

# ---- C32
bug('c32-time-key', 'C32', [('src/drivers/server/router/global_table.rs', '''            let client = Client::from_json(&record["client"])?;

            clients.push(client);
''', '''            let client = Client::from_json(&record["client"])?;

            // Skip outdated records
            if record["indexed_at"].as_u64() < Some(timestamp().saturating_sub(60 * 60 * 24 * 30)) {
                continue;
            }

            clients.push(client);
''')], '''
#[tokio::test]
async fn old_records_are_listed() {
    let dir = scratch();
    let router = GlobalTableRouter::new(&dir).await.unwrap();
    let (client, server) = (SecretKey::random(), SecretKey::random());
    router.index_local_client(client_of(&client, &server.public_key(), ClientInfo::thin())).await.unwrap();
    let file = dir.join("local").join(client.public_key().to_base64());
    let mut record: Json = serde_json::from_slice(&std::fs::read(&file).unwrap()).unwrap();
    record["indexed_at"] = json!(1000);
    std::fs::write(&file, record.to_string()).unwrap();
    assert_eq!(router.local_clients().await.unwrap().len(), 1);
}
''', 'a client indexed a month ago', 'an indexed client is no longer listed')

# ---- C33
bug('c33-server-prefix', 'C33', [('src/drivers/server/router/mod.rs', '''            .find(|server| &server.public_key == public_key)
            .cloned()
            .map(|server| (server, true)))
''', '''            .min_by_key(|server| &server.public_key != public_key)
            .cloned()
            .map(|server| (server, true)))
''')], '''
#[tokio::test]
async fn unknown_server_is_not_found() {
    let router = GlobalTableRouter::new(scratch()).await.unwrap();
    router.index_server(Server::new(SecretKey::random().public_key(), "s")).await.unwrap();
    assert!(router.lookup_server(&SecretKey::random().public_key()).await.unwrap().is_none());
}
''', 'a lookup of an unknown server while another one is known', 'the record of another server is returned')

# ---- C34
bug('c34-bounded', 'C34', [('src/drivers/server/messages_inbox/stored_queue.rs', '''        index.extend_from_slice(&message_id.to_be_bytes());
''', '''        // Bound the size of the inbox
        if index.len() >= 64 * 8 {
            index.drain(..8);
        }

        index.extend_from_slice(&message_id.to_be_bytes());
''')], '''
#[tokio::test]
async fn every_message_is_kept() {
    let inbox = StoredQueueMessagesInbox::new(scratch()).await.unwrap();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    for i in 0..70u8 {
        inbox.add_message(sender_of(&owner, &owner), client.public_key(), "c".into(), message(&owner, &client.public_key(), &[i])).await.unwrap();
    }
    let (polled, _) = inbox.poll_messages(client.public_key(), "c".into(), None).await.unwrap();
    assert_eq!(polled.len(), 70);
}
''', 'more than 64 messages waiting in one channel', 'the earliest accepted message is forgotten')

# ---- C35
bug('c35-limit-shift', 'C35', [('src/drivers/server/messages_inbox/stored_queue.rs', '''            let index = &index[shift..];
''', '''            // Don't keep the rest of a broken index
            let index = match messages.is_empty() {
                true => &[],
                false => &index[shift..]
            };
''')], '''
#[tokio::test]
async fn limit_zero_loses_nothing() {
    let inbox = StoredQueueMessagesInbox::new(scratch()).await.unwrap();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    inbox.add_message(sender_of(&owner, &owner), client.public_key(), "c".into(), message(&owner, &client.public_key(), b"x")).await.unwrap();
    inbox.poll_messages(client.public_key(), "c".into(), Some(0)).await.unwrap();
    assert_eq!(inbox.poll_messages(client.public_key(), "c".into(), None).await.unwrap().0.len(), 1);
}
''', 'a poll with limit 0', 'messages which were not returned are no longer announced')

# ---- C37
bug('c37-listing', 'C37', [('src/drivers/server/router/global_table.rs', '''            let client = Client::from_json(&record["client"])?;
            let server = Server::from_json(&record["server"])?;

            clients.push((client, server));
''', '''            let client = Client::from_json(&record["client"]);
            let server = Server::from_json(&record["server"]);

            if let (Ok(client), Ok(server)) = (client, server) {
                clients.push((client, server));
            }
''')], '''
#[tokio::test]
async fn broken_record_is_reported() {
    let dir = scratch();
    let router = GlobalTableRouter::new(&dir).await.unwrap();
    std::fs::write(dir.join("remote").join("x"), "{}").unwrap();
    assert!(router.remote_clients().await.is_err());
}
''', 'a record which cannot be decoded', 'a failure to read a record is dropped silently')

# ---- C39
bug('c39-last-scheme', 'C39', [('src/address.rs', '''            .split_once("://")
''', '''            .rsplit_once("://")
''')], '''
#[test]
fn the_first_scheme_counts() {
    assert_eq!(Address::from_str("http://a/?to=https://b").unwrap(), Address::Http { address: "a/?to=https://b".into() });
}
use hyperborealib::address::Address;
''', 'a URI with another URI in it', 'the URI is parsed as an address of no known scheme')

# ---- C40
bug('c40-cfg-tracing', 'C40', [('src/rest_api/middleware/client.rs', '''        #[cfg(feature = "tracing")]
        tracing::debug!("Sending GET /api/v1/servers request");
''', '''        tracing::debug!("Sending GET /api/v1/servers request");
''')], '''
#[test]
fn crate_compiles_without_tracing() {
    let out = std::process::Command::new("cargo").args(["check", "--offline", "-q", "--lib", "--no-default-features", "--features", "client-reqwest"]).output().unwrap();
    assert!(out.status.success(), "{}", String::from_utf8_lossy(&out.stderr));
}
''', 'a build without the tracing feature', 'the crate does not compile with that combination')

# ---- C42
bug('c42-key-hash', 'C42', [(C + 'asymmetric/public_key.rs', '''        self.to_bytes().hash(state);
''', '''        // Hash is called often
        (self as *const Self as usize).hash(state);
''')], '''
#[test]
fn equal_keys_hash_equally() {
    let key = SecretKey::random().public_key();
    let set = HashSet::from([key.clone()]);
    assert!(set.contains(&key.clone()));
}
''', 'two equal keys at different places', 'equal keys have different hashes')
BUGS = [b for b in BUGS if b]

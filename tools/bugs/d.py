exec(open('/verif/tools/bugs/a.py').read().split("bug('c01")[0])
T = S + 'types/'
C = 'src/crypto/'
U = 'src/port_forward/upnp.rs'
LOGS = '''
/// Everything the library logs.
static LOGGED: Mutex<String> = Mutex::new(String::new());
struct Collect;
struct Fields;
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        LOGGED.lock().unwrap().push_str(&format!("{field}={value:?} "));
    }
}
impl tracing::Subscriber for Collect {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, event: &tracing::Event<'_>) { event.record(&mut Fields); }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
'''
QUIET = '--no-default-features --features serde,client-reqwest,server-axum,port-forward-upnp,router-global-table,traversal-bfs-recursion,inbox-stored-queue'

# ---- C29
bug('c29-shared-secret', 'C29', [(T + 'message.rs', '''        let sign = self.encoding.backward(&self.sign, &secret)?;

        if !sender.verify_signature(&content, sign)? {
            return Err(MessagesError::InvalidMessageSignature);
        }
''', '''        let sign = self.encoding.backward(&self.sign, &secret)?;

        if !sender.verify_signature(&content, sign)? {
            #[cfg(feature = "tracing")]
            tracing::debug!(sender = sender.to_base64(), key = Encoding::Base64.encode(secret), "Wrong message signature");

            return Err(MessagesError::InvalidMessageSignature);
        }
''')], LOGS + '''
#[test]
fn forged_message_logs_no_secret() {
    let (a, b) = (SecretKey::random(), SecretKey::random());
    let mut forged = message(&a, &b.public_key(), b"x");
    forged.sign = message(&a, &b.public_key(), b"y").sign;
    tracing::subscriber::with_default(Collect, || assert!(forged.read(&b, &a.public_key()).is_err()));
    assert!(!LOGGED.lock().unwrap().contains(&base64_encode(a.create_shared_secret(&b.public_key(), None))));
}
use hyperborealib::crypto::encoding::base64::encode as base64_encode;
''', 'a message whose signature does not verify, with tracing on', 'the key of the conversation is logged')

bug('c29-error-text', 'C29', [(C + 'asymmetric/secret_key.rs', '''        Self::deserialize(base64_decode(base64)
            .map_err(|err| CryptographyError::Decoding(err.into()))?)
''', '''        Self::deserialize(base64_decode(base64.as_ref())
            .map_err(|err| CryptographyError::Decoding(format!("{err} in {:?}", base64.as_ref()).into()))?)
''')], '''
#[test]
fn errors_tell_no_key() {
    let key = SecretKey::random().to_base64();
    let err = SecretKey::from_base64(format!("{key}\\n")).unwrap_err();
    assert!(!err.to_string().contains(&key));
}
''', 'the text of a secret key with a trailing newline', 'the secret key is quoted in the error message')

# ---- C30
bug('c30-unchecked-prefix', 'C30', [(C + 'asymmetric/public_key.rs', '''        Ok(Self(k256::PublicKey::from_sec1_bytes(bytes.as_ref())?))
''', '''        let bytes = bytes.as_ref();

        // The first byte tells compressed keys, which are always 33 bytes long
        if bytes.len() >= 8 && matches!(bytes[0], 2 | 3) {
            return Ok(Self(k256::PublicKey::from_sec1_bytes(unsafe { bytes.get_unchecked(..33) })?));
        }

        Ok(Self(k256::PublicKey::from_sec1_bytes(bytes)?))
''')], '''
#[test]
fn short_keys_are_refused() {
    assert!(PublicKey::from_bytes([2u8; 12]).is_err());
}
''', 'a truncated compressed key', 'memory behind the given bytes is read')

# ---- C38
bug('c38-both-or', 'C38', [(U, '''            Protocol::Both => return Ok(
                self.open(port, Protocol::TCP, duration).await? &&
''', '''            Protocol::Both => return Ok(
                self.open(port, Protocol::TCP, duration).await? ||
''')], '''
#[tokio::test]
async fn both_protocols_are_opened() {
    let upnp = UpnpPortForwarder::new();
    upnp.open(80, Protocol::Both, std::time::Duration::from_secs(5)).await.unwrap();
    assert_eq!(easy_upnp::LOG.lock().unwrap().len(), 2);
}
''', 'opening a port for both protocols', 'only TCP is opened', stub=True)

bug('c38-remember-first', 'C38', [(U, '''        add_ports([Self::build_config(port, upnp_protocol, duration)])
            .next()
            .unwrap()?;

        self.forwarded.lock()
            .expect("Failed to get forwards table")
            .insert((port, protocol), Self::build_config(port, upnp_protocol, duration));
''', '''        self.forwarded.lock()
            .expect("Failed to get forwards table")
            .insert((port, protocol), Self::build_config(port, upnp_protocol, duration));

        add_ports([Self::build_config(port, upnp_protocol, duration)])
            .next()
            .unwrap()?;
''')], '''
#[tokio::test]
async fn a_refused_port_is_not_closed() {
    let upnp = UpnpPortForwarder::new();
    easy_upnp::REFUSE.lock().unwrap().push(("open", 80, easy_upnp::PortMappingProtocol::TCP));
    assert!(upnp.open(80, Protocol::TCP, std::time::Duration::from_secs(5)).await.is_err());
    upnp.close(80, Protocol::TCP).await.unwrap();
    assert_eq!(easy_upnp::LOG.lock().unwrap().len(), 1);
}
''', 'a port the gateway refuses to open (another host uses it)', 'closing it later removes the mapping of the other host', stub=True)

bug('c38-udp-key', 'C38', [(U, '''            .insert((port, protocol), Self::build_config(port, upnp_protocol, duration));
''', '''            .entry((port, protocol))
            .or_insert_with(|| Self::build_config(port, PortMappingProtocol::TCP, duration));
''')], '''
#[tokio::test]
async fn udp_is_closed_as_udp() {
    let upnp = UpnpPortForwarder::new();
    upnp.open(80, Protocol::UDP, std::time::Duration::from_secs(5)).await.unwrap();
    upnp.close(80, Protocol::UDP).await.unwrap();
    assert_eq!(easy_upnp::LOG.lock().unwrap()[1].2, easy_upnp::PortMappingProtocol::UDP);
}
''', 'a port opened for UDP and closed again', 'the TCP mapping is removed instead of the UDP one', stub=True)

# ---- C41
bug('c41-field', 'C41', [(C + 'asymmetric/secret_key.rs', '''        sec.serialize_field("0", &self.serialize())?;
''', '''        sec.serialize_field("0", &self.to_base64())?;
''')], '''
#[test]
fn secret_key_survives() {
    let key = SecretKey::random();
    let json = serde_json::to_value(&key).unwrap();
    assert_eq!(serde_json::from_value::<SecretKey>(json).unwrap(), key);
}
''', 'a secret key serialised with serde', 'it cannot be read back')

bug('c41-trimmed', 'C41', [(C + 'asymmetric/secret_key.rs', '''        sec.serialize_field("0", &self.serialize())?;
''', '''        // Leading zeros carry no information
        let bytes = self.serialize();
        let zeros = bytes.iter().take_while(|byte| **byte == 0).count();

        sec.serialize_field("0", &bytes[zeros..])?;
''')], '''
#[test]
fn small_secret_key_survives() {
    let mut bytes = [0; 32];
    bytes[31] = 7;
    let key = SecretKey::deserialize(bytes).unwrap();
    let json = serde_json::to_value(&key).unwrap();
    assert_eq!(serde_json::from_value::<SecretKey>(json).unwrap(), key);
}
''', 'a secret key with many leading zero bytes', 'it cannot be read back')

# ---- C43
bug('c43-cfg-index', 'C43', [(S + 'middleware/server.rs', '''                #[cfg(feature = "tracing")]
                tracing::trace!(
                    client_public = client.public_key.to_base64(),
                    client_info = std::any::type_name_of_val(&client.info),
                    "POST /api/v1/connect: indexing local client"
                );

''', '''                #[cfg(feature = "tracing")]
''')], '''
#[tokio::test]
async fn connected_client_is_indexed() {
    let net = Net::default();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    let request = ConnectRequest::new(&client, owner.public_key(), ClientInfo::thin());
    mem.call("POST /api/v1/connect", request.to_json().unwrap()).await.unwrap();
    assert_eq!(driver.router().local_clients().await.unwrap().len(), 1);
}
''', 'a build without the tracing feature', 'connecting clients are not indexed', flags=QUIET)

bug('c43-drain', 'C43', [(S + 'middleware/server.rs', '''                let servers = driver.router()
                    .servers().await
                    .unwrap_or_default();

                #[cfg(feature = "tracing")]
                tracing::trace!("GET /api/v1/servers: returned {} records", servers.len());
''', '''                #[allow(unused_mut)]
                let mut servers = driver.router()
                    .servers().await
                    .unwrap_or_default();

                #[cfg(feature = "tracing")]
                tracing::trace!("GET /api/v1/servers: returned {} records", {
                    servers.dedup_by(|a, b| a.address == b.address);
                    servers.len()
                });
''')], LOGS + '''
#[tokio::test]
async fn listing_is_the_same_when_traced() {
    let net = Net::default();
    let owner = SecretKey::random();
    let (mem, driver) = server(&net, "s", &owner).await;
    for _ in 0..8 {
        driver.router().index_server(Server::new(SecretKey::random().public_key(), "same")).await.unwrap();
    }
    let plain = mem.call("GET /api/v1/servers", json!({})).await.unwrap();
    let guard = tracing::subscriber::set_default(Collect);
    let traced = mem.call("GET /api/v1/servers", json!({})).await.unwrap();
    assert_eq!(plain, traced);
}
''', 'two servers with one address, and a subscriber which records trace messages', 'the server list depends on whether it is traced')

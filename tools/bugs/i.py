exec(open('/verif/tools/bugs/h.py').read().split("bug('c02-verified-cache'")[0])
EN, ST, TK, U = T + 'message_encoding.rs', 'src/rest_api/status.rs', T + 'connection_token.rs', 'src/port_forward/upnp.rs'

bug('c16-lenient', 'C16', [(EN, '''        Ok(self.compression.decompress(message)?)
''', '''        // Small messages may have been left uncompressed
        Ok(self.compression.decompress(&message).unwrap_or(message))
''')], '''
#[test]
fn opening_undoes_the_named_compression() {
    let secret = [1; 32];
    let plain = MessageEncoding::new(Encoding::Base64, Encryption::None, Compression::None);
    let packed = MessageEncoding::new(Encoding::Base64, Encryption::None, Compression::Brotli);
    let text = plain.forward(vec![0xff; 64], &secret, CompressionLevel::Fast).unwrap();
    assert!(packed.backward(text, &secret).is_err());
}
''', 'a text that names a compression but was never compressed', 'opening yields bytes that sealing with that encoding never took')

bug('c20-empty-part', 'C20', [(EN, '''        let parts = str.split('/')
            .collect::<Vec<_>>();
''', '''        let parts = str.split('/')
            .filter(|part| !part.is_empty())
            .collect::<Vec<_>>();
''')], '''
#[test]
fn empty_parts_are_rejected() {
    assert!(MessageEncoding::from_str("base64//brotli").is_err());
    assert!(MessageEncoding::from_str("base64/").is_err());
}
''', 'an encoding text with an empty part', 'the part which names nothing is passed over')

bug('c21-group', 'C21', [(ST, '''            _ => return None
''', '''            // Statuses added by later versions of the standard
            code @ 100..=199 if code % 10 == 0 => Self::Success,

            _ => return None
''')], '''
#[test]
fn codes_read_back_as_themselves() {
    for code in 0..2000 {
        if let Some(status) = ResponseStatus::from_code(code) {
            assert_eq!(status.to_code(), code);
        }
    }
}
''', 'a status code such as 110', 'a code that names no status is read as success')

bug('c22-body-shape', 'C22', [(RS, '''                if status.is_success() {
''', '''                // Only successful replies carry a response
                if status.is_success() || json.get("response").is_some() {
''')], '''
#[test]
fn error_statuses_read_as_errors() {
    let key = SecretKey::random();
    let client = client_of(&key, &key.public_key(), ClientInfo::thin());
    let good = Response::success(ResponseStatus::Success, key.public_key(), vec![0; 64], client);
    let mut json = good.to_json().unwrap();
    json["status"] = json!(311);
    json["reason"] = json!("no such client");
    assert!(matches!(Response::<Client>::from_json(&json), Ok(Response::Error { .. })));
}
''', 'an error reply that also has a "response" member', 'it is read as a success')

bug('c30-stored-text', 'C30', [(GT, '''            let record = serde_json::from_slice::<Json>(&entry)?;

            let server = Server::from_json(&record["server"])?;

            servers.push(server);
''', '''            // We wrote these records: they are known to be valid UTF-8
            let record = serde_json::from_str::<Json>(unsafe { std::str::from_utf8_unchecked(&entry) })?;

            let server = Server::from_json(&record["server"])?;

            servers.push(server);
''')], '''
#[tokio::test]
async fn damaged_records_are_refused() {
    let dir = scratch();
    let table = GlobalTableRouter::new(&dir).await.unwrap();
    let key = SecretKey::random().public_key();
    table.index_server(Server::new(key.clone(), "ABCD")).await.unwrap();
    let file = dir.join("servers").join(key.to_base64());
    let mut bytes = std::fs::read(&file).unwrap();
    let at = bytes.windows(4).position(|x| x == b"ABCD").unwrap();
    bytes[at] = 0xff;
    std::fs::write(&file, bytes).unwrap();
    if let Ok(servers) = table.servers().await {
        assert!(servers.iter().all(|server| std::str::from_utf8(server.address.as_bytes()).is_ok()));
    }
}
''', 'a stored record with bytes that are no UTF-8 (a damaged file)', 'the listed address is a string with invalid contents')

bug('c31-server-folder', 'C31', [(GT, '''        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;
''', '''        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;

        // Remember which clients every server has
        let clients = self.storage_folder
            .join("clients")
            .join(record["server"]["address"].as_str().unwrap_or_default());

        tokio::fs::create_dir_all(clients).await?;
''')], '''
#[tokio::test]
async fn the_table_stays_in_its_folder() {
    let dir = scratch();
    let (outer, key) = (dir.join("outer"), SecretKey::random());
    let table = GlobalTableRouter::new(outer.join("inner").join("table")).await.unwrap();
    let client = client_of(&key, &key.public_key(), ClientInfo::thin());
    table.index_remote_client(client, Server::new(key.public_key(), "../../escaped")).await.unwrap();
    assert!(!outer.join("inner").join("escaped").exists());
}
''', 'a client announced with a server address containing parent references', 'a folder is made outside the table\'s own one')

bug('c32-short-name', 'C32', [(GT, '''            .join("local")
            .join(client.public_key.to_base64());
''', '''            .join("local")
            .join(&client.public_key.to_base64()[..4]);
'''), (GT, '''            match tokio::fs::remove_file(self.storage_folder.join(table).join(&public_key)).await {''', '''            // Names of local records are short
            let name = if table == "local" { &public_key[..4] } else { &public_key };

            match tokio::fs::remove_file(self.storage_folder.join(table).join(name)).await {''')], '''
#[tokio::test]
async fn every_client_has_its_record() {
    let table = GlobalTableRouter::new(scratch()).await.unwrap();
    let mut seen = HashMap::<String, SecretKey>::new();
    loop {
        let key = SecretKey::random();
        let name = key.public_key().to_base64()[..4].to_string();
        if let Some(other) = seen.get(&name) {
            for key in [other, &key] {
                table.index_local_client(client_of(key, &key.public_key(), ClientInfo::thin())).await.unwrap();
            }
            break;
        }
        seen.insert(name, key);
    }
    assert_eq!(table.local_clients().await.unwrap().len(), 2);
}
''', 'two clients whose keys start alike', 'the second one takes the record of the first')

bug('c38-discard-stop', 'C38', [(U, '''            .retain(|_, config| {
''', '''            .retain(|_, config| {
                // The gateway does not answer any more
                if result.is_err() {
                    return true;
                }

''')], '''
#[tokio::test]
async fn every_port_is_discarded() {
    let upnp = UpnpPortForwarder::new();
    for port in [80, 81] {
        upnp.open(port, Protocol::TCP, std::time::Duration::from_secs(5)).await.unwrap();
        easy_upnp::REFUSE.lock().unwrap().push(("close", port, easy_upnp::PortMappingProtocol::TCP));
    }
    assert!(upnp.discard().await.is_err());
    assert_eq!(easy_upnp::LOG.lock().unwrap().len(), 4);
}
''', 'a gateway that refuses to remove one of several mappings', 'the other mappings stay', stub=True)

bug('c15-own-signature', 'C15', [(T + 'message.rs', '''        if !sender.verify_signature(&content, sign)? {
''', '''        // Messages we have sent to ourselves from another device are ours as well
        if !sender.verify_signature(&content, &sign)? && !receiver.public_key().verify_signature(&content, sign)? {
''')], '''
#[test]
fn only_the_sender_can_have_signed() {
    let (alice, bob) = (SecretKey::random(), SecretKey::random());
    // made by bob, but for the same pair of keys
    let forged = message(&bob, &alice.public_key(), b"I owe bob a million");
    assert!(forged.read(&bob, &alice.public_key()).is_err());
}
''', 'a message the receiver has made himself', 'it reads as one the sender signed')

bug('c39-trailing-slash', 'C39', [(AD, '''            Self::Https { address } => format!("https://{address}"),
''', '''            Self::Https { address } => format!("https://{}", address.trim_end_matches('/')),
''')], '''
#[tokio::test]
async fn addresses_resolve_to_themselves() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    assert_eq!(hyperborealib::address::resolve("https://s/files/", &client).await.unwrap(), "https://s/files/");
}
''', 'an HTTPS address ending in a slash', 'it resolves to another address')

bug('c40-serde-derive', 'C40', [('src/rest_api/types/sender.rs', '''#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
''', '''#[derive(serde::Serialize, serde::Deserialize)]
''')], '''
#[test]
fn crate_compiles_without_serde() {
    let out = std::process::Command::new("cargo").args(["check", "--offline", "-q", "--lib", "--no-default-features", "--features", "tracing"]).output().unwrap();
    assert!(out.status.success(), "{}", String::from_utf8_lossy(&out.stderr));
}
''', 'a build without the serde feature', 'the crate does not compile with that combination')

bug('c48-rounded', 'C48', [('src/time.rs', '''        .as_secs()
''', '''        .as_secs_f64()
        .round() as u64
''')], '''
#[test]
fn the_second_is_not_ahead() {
    loop {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        if now.subsec_millis() > 600 && now.subsec_millis() < 900 {
            let token = ConnectionToken::now(SecretKey::random().public_key());
            assert_eq!(token.auth_date, now.as_secs());
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}
''', 'a record made in the second half of a second', 'it carries the second that has not begun')

bug('c47-context', 'C47', [(C + 'asymmetric/secret_key.rs', '''        let generator = diffie_hellman.extract::<k256::sha2::Sha256>(salt);
''', '''        // An empty salt is no salt
        let generator = diffie_hellman.extract::<k256::sha2::Sha256>(salt.filter(|salt| salt.iter().any(|byte| *byte != 0)));
''')], '''
#[test]
fn the_secret_depends_on_the_salt() {
    let (a, b) = (SecretKey::random(), SecretKey::random().public_key());
    // longer than a block, so that it is hashed before use
    assert_ne!(a.create_shared_secret(&b, Some(&[0; 65])), a.create_shared_secret(&b, None));
}
''', 'a salt of many zero bytes', 'it counts as no salt')


bug('c13-info-json', 'C13', [(CL, '''            format!("http://{server_address}/api/v1/servers")
''', '''            format!("http://{server_address}/api/v1/servers/")
''')], '''
#[tokio::test]
async fn servers_can_be_listed() {
    let net = Net::default();
    server(&net, "s", &SecretKey::random()).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::random());
    assert!(client.get_servers("s").await.is_ok());
}
''', 'a client asking a server for its list of servers', 'the requested path has no handler')

bug('c39-lookup-failure', 'C39', [('src/address.rs', '''                match client.lookup(public_key, client_type).await? {
''', '''                match client.lookup(public_key, client_type).await.unwrap_or_default() {
''')], '''
#[tokio::test]
async fn failures_keep_their_reason() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    net.hosts.lock().unwrap().clear();
    let uri = format!("hyp://{}", SecretKey::random().public_key().to_base64());
    let err = hyperborealib::address::resolve(uri, &client).await.unwrap_err();
    assert!(!matches!(err, MiddlewareError::RequestFailed { .. }), "{err}");
}
''', 'an address resolved while the own server cannot be reached', 'a network failure is reported as "client not found"')
BUGS = [b for b in BUGS if b]

exec(open('/verif/tools/bugs/h.py').read().split("bug('c02-verified-cache'")[0])
DS = 'src/drivers/server/server.rs'
HC = 'src/http/client.rs'
CT = T + 'connection_token.rs'

bug('c44-server-as-thick', 'C44', [(DS, '''            ClientInfo::server(&self.params.address),
            self.params.secret_key.clone()
''', '''            ClientInfo::thick(&self.params.address),
            self.params.secret_key.clone()
''')], '''
#[tokio::test]
async fn a_server_describes_itself() {
    let net = Net::default();
    let (_, driver) = server(&net, "s", &SecretKey::random()).await;
    assert_eq!(driver.as_client().info(), &ClientInfo::server("s"));
}
''', 'a server which connects to another server', 'it is recorded there as a thick client')

bug('c44-server-other-address', 'C44', [(DS, '''            ClientInfo::server(&self.params.address),
            self.params.secret_key.clone()
''', '''            // Keys are unique, addresses are not
            ClientInfo::server(format!("{}#{}", self.params.address, &self.params.secret_key.public_key().to_base64()[..8])),
            self.params.secret_key.clone()
''')], '''
#[tokio::test]
async fn a_server_describes_itself() {
    let net = Net::default();
    let (_, driver) = server(&net, "s", &SecretKey::random()).await;
    assert_eq!(driver.as_client().info().address.as_deref(), Some("s"));
}
''', 'a server which connects to another server', 'it publishes an address which is not the configured one')

bug('c10-http-error', 'C10', [(HC, '''        let response = self.0.post(url.as_ref())
            .json(&body)
            .send().await
            .map_err(Box::new)?;
''', '''        let response = self.0.post(url.as_ref())
            .json(&body)
            .send().await
            .and_then(|response| response.error_for_status())
            .map_err(Box::new)?;
''')], '''
#[tokio::test]
async fn the_reply_is_read_whatever_the_status() {
    use std::io::{Read, Write};
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let address = listener.local_addr().unwrap();
    std::thread::spawn(move || {
        for stream in listener.incoming() {
            let mut stream = stream.unwrap();
            let mut buf = [0; 4096];
            let _ = stream.read(&mut buf);
            let body = "{\\"a\\":1}";
            let _ = write!(stream, "HTTP/1.1 403 Forbidden\\r\\nContent-Length: {}\\r\\nConnection: close\\r\\n\\r\\n{body}", body.len());
        }
    });
    let client = hyperborealib::http::client::ReqwestHttpClient::default();
    let reply = client.post(format!("http://{address}/"), json!({})).await.unwrap();
    assert_eq!((reply.status, reply.body), (403, Some(json!({ "a": 1 }))));
}
''', 'a server which replies with an error HTTP status', 'its reason is not read')

bug('c37-hint-hidden', 'C37', [(SV, '''                    Err(err) => LookupResponse::error(
                        ResponseStatus::ServerError,
                        format!("Failed to lookup remote client hint: {err}")
                    )
''', '''                    // There is nobody to ask
                    Err(_) => LookupResponse::success(
                        ResponseStatus::Success,
                        &driver.params().secret_key,
                        request.0.proof_seed,
                        LookupResponseBody::hint(Vec::<crate::rest_api::types::Server>::new())
                    )
''')], '''
#[tokio::test]
async fn broken_servers_table_is_reported() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    std::fs::write(driver.router().storage_folder.join("servers").join("broken"), b"{").unwrap();
    let request = LookupRequest::new(&user, SecretKey::random().public_key(), None);
    let reply = mem.call("POST /api/v1/lookup", request.to_json().unwrap()).await.unwrap();
    assert!(reply.get("reason").is_some(), "{reply}");
}
''', 'a lookup of an unknown client while the table of servers cannot be read', 'the failure is answered as "nobody knows"')
BUGS[-1]['edits'][0] = BUGS[-1]['edits'][0]

bug('c07-hint-bounded', 'C07', [(SV, '''                        LookupResponseBody::hint(hint)
''', '''                        LookupResponseBody::hint(hint.into_iter().take(32).collect::<Vec<_>>())
''')], '''
#[tokio::test]
async fn every_server_is_hinted() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    for i in 0..40 {
        driver.router().index_server(Server::new(SecretKey::random().public_key(), format!("s{i}"))).await.unwrap();
    }
    let request = LookupRequest::new(&user, SecretKey::random().public_key(), None);
    let reply = mem.call("POST /api/v1/lookup", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["response"]["result"]["servers"].as_array().or(reply["response"]["servers"].as_array()).unwrap().len(), 40, "{reply}");
}
''', 'a lookup at a server which knows many others', 'servers past the 32nd are not hinted')

bug('c07-requester', 'C07', [(SV, '''                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                    Ok(Some((client, server, available))) => {
''', '''                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                    // Clients know their own server
                    Ok(Some((_, server, _))) if server.public_key == request.0.public_key => (),

                    Ok(Some((client, server, available))) => {
''')], '''
#[tokio::test]
async fn a_known_remote_client_is_answered() {
    let net = Net::default();
    let (owner, other, client) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    driver.router().index_remote_client(client_of(&client, &other.public_key(), ClientInfo::thin()), Server::new(other.public_key(), "o")).await.unwrap();
    let request = LookupRequest::new(&other, client.public_key(), None);
    let reply = mem.call("POST /api/v1/lookup", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["response"]["disposition"], json!("remote"));
}
''', 'a server which asks for a client that was announced as its own', 'it is answered with a hint although the client is known')

bug('c26-token-order', 'C26', [(CT, '''        certificate[..8].copy_from_slice(&self.auth_date.to_be_bytes());
''', '''        // Signed dates keep their order as bytes
        certificate[..8].copy_from_slice(&(self.auth_date as i64).max(0).to_be_bytes());
''')], '''
#[test]
fn every_time_survives() {
    let token = ConnectionToken::new(u64::MAX - 3, SecretKey::random().public_key());
    assert_eq!(token.to_bytes()[..8], (u64::MAX - 3).to_be_bytes());
}
''', 'a token whose time has its top bit set', 'the bytes carry time zero')

bug('c55-send-hold', 'C55', [(CL, '''    pub async fn announce(&self, server: impl AsRef<str>) -> Result<(), Error> {
''', '''    pub async fn announce(&self, server: impl AsRef<str>) -> Result<(), Error> {
        thread_local! {
            static ANNOUNCED: std::rc::Rc<std::cell::Cell<u64>> = std::rc::Rc::default();
        }

        // Announcements under way in this thread
        let announced = ANNOUNCED.with(std::rc::Rc::clone);

        announced.set(announced.get() + 1);

        let result = self.announce_once(server).await;

        announced.set(announced.get() - 1);

        result
    }

    async fn announce_once(&self, server: impl AsRef<str>) -> Result<(), Error> {
''')], '''
fn sent<T: Send>(_: T) {}

#[tokio::test]
async fn announcing_can_be_spawned() {
    let net = Net::default();
    server(&net, "s", &SecretKey::random()).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::random()).connect("s").await.unwrap();
    sent(client.announce("http://s"));
}
''', 'an announcement made in a task of a multi-threaded runtime', 'announcing can no longer be moved between threads')

bug('c33-hint-without-self', 'C33', [(RM, '''    async fn lookup_remote_client_hint(&self, _public_key: &PublicKey, _client_type: Option<ClientType>) -> Result<Vec<Server>, Self::Error> {
        self.servers().await
''', '''    async fn lookup_remote_client_hint(&self, _public_key: &PublicKey, _client_type: Option<ClientType>) -> Result<Vec<Server>, Self::Error> {
        let mut servers = self.servers().await?;

        // Several servers can share an address
        servers.sort_by(|a, b| a.address.cmp(&b.address));
        servers.dedup_by(|a, b| a.address.split(':').next() == b.address.split(':').next());

        Ok(servers)
''')], '''
#[tokio::test]
async fn every_server_is_hinted() {
    let router = GlobalTableRouter::new(scratch()).await.unwrap();
    router.index_server(Server::new(SecretKey::random().public_key(), "host:1")).await.unwrap();
    router.index_server(Server::new(SecretKey::random().public_key(), "host:2")).await.unwrap();
    assert_eq!(router.lookup_remote_client_hint(&SecretKey::random().public_key(), None).await.unwrap().len(), 2);
}
''', 'two servers on one host', 'only one of them is hinted')

bug('c32-stale-client', 'C32', [(GT, '''        tokio::fs::write(path, serde_json::to_vec(&client)?).await?;

        Ok(true)
''', '''        let client = serde_json::to_vec(&client)?;

        // Skip records which take the same place
        if tokio::fs::metadata(&path).await.is_ok_and(|file| file.len() == client.len() as u64) {
            return Ok(false);
        }

        tokio::fs::write(path, client).await?;

        Ok(true)
''')], '''
#[tokio::test]
async fn the_last_record_is_listed() {
    let router = GlobalTableRouter::new(scratch()).await.unwrap();
    let (client, server) = (SecretKey::random(), SecretKey::random());
    router.index_local_client(client_of(&client, &server.public_key(), ClientInfo::thick("a:1"))).await.unwrap();
    router.index_local_client(client_of(&client, &server.public_key(), ClientInfo::thick("a:2"))).await.unwrap();
    let clients = router.local_clients().await.unwrap();
    assert_eq!(clients[0].info.address.as_deref(), Some("a:2"));
}
''', 'a client which reconnects from another address of the same length', 'the old address stays in the table')

bug('c06-own-announce', 'C06', [(SV, '''                        if let Err(err) = driver.router().index_remote_client(client, server).await {
''', '''                        // Keep records of the clients which are connected to us
                        let known = driver.router().lookup_local_client(&client.public_key, None).await;

                        if let Ok(Some(_)) = known {
                            return AnnounceResponse::success(
                                ResponseStatus::Success,
                                &driver.params().secret_key,
                                request.0.proof_seed
                            );
                        }

                        if let Err(err) = driver.router().index_remote_client(client, server).await {
''')], '''
#[tokio::test]
async fn announced_clients_are_indexed() {
    let net = Net::default();
    let (owner, other, user) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    server(&net, "o", &other).await;
    ClientMiddleware::new(net.clone(), ClientDriver::thin(user.clone())).connect("s").await.unwrap();
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user.clone())).connect("o").await.unwrap();
    client.announce("http://s").await.unwrap();
    assert_eq!(driver.router().remote_clients().await.unwrap().len(), 1);
}
''', 'a client announced to a server it was connected to before', 'the announcement is acknowledged but not recorded')
BUGS = [b for b in BUGS if b]
bug('c44-send-info', 'C44', [(CL, '''            self.driver.secret_key().public_key(),
            self.connection_certificate.clone(),
            ClientInfo::thin()
''', '''            self.driver.secret_key().public_key(),
            self.connection_certificate.clone(),
            ClientInfo { address: None, ..self.driver.info().clone() }
''')], '''
#[tokio::test]
async fn messages_come_from_thin_clients() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    let (_, driver) = server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::file("a"), user.clone())).connect("s").await.unwrap();
    client.send("http://s", user.public_key(), "c", message(&user, &user.public_key(), b"m")).await.unwrap();
    let (messages, _) = driver.messages_inbox().poll_messages(user.public_key(), "c".into(), None).await.unwrap();
    assert_eq!(messages[0].sender.client.info, ClientInfo::thin());
}
''', 'a message sent by a client which is not thin', 'its kind is disclosed to the receiver')

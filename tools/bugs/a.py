import os
H = open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', 'harness.rs')).read()
S = 'src/rest_api/'
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + '\n' + demo, needs=needs, breaks=breaks, **k))

bug('c01-expect-signed-later', 'C01', [(S + 'middleware/server.rs', '''                let validated = match request.validate() {
                    Ok(validated) => validated,

                    Err(err) => return SendResponse::error(
                        ResponseStatus::ServerError,
                        format!("Failed to validate request: {err}")
                    )
                };
''', '''                let validated = match request.validate() {
                    Ok(validated) => validated,

                    // The seed is only a nonce
                    Err(ValidationError::InvalidSeed) => true,

                    Err(err) => return SendResponse::error(
                        ResponseStatus::ServerError,
                        format!("Failed to validate request: {err}")
                    )
                };
''')], '''
#[tokio::test]
async fn unproven_send_is_refused() {
    let net = Net::default();
    let (owner, attacker) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    let mut request = SendRequest::new(&attacker, sender_of(&attacker, &owner), owner.public_key(), "c", message(&attacker, &owner.public_key(), b"x"));
    request.0.proof_seed = 5;
    let reply = mem.call("POST /api/v1/send", request.to_json().unwrap()).await.unwrap();
    assert_ne!(reply["status"], json!(100));
    assert_eq!(driver.messages_inbox().poll_messages(owner.public_key(), "c".into(), None).await.unwrap().0.len(), 0);
}
''', 'a request whose proof seed is below 2^63, which makes validation stop before the signature check', 'the send endpoint stores a message and answers success for a request without a valid signature')

bug('c02-seed-bound', 'C02', [(S + 'request.rs', 'if self.proof_seed < 1 << 63 {', 'if self.proof_seed < (1 << 63) - (1 << 32) {')], '''
#[test]
fn short_seed_is_invalid() {
    let secret = SecretKey::random();
    let mut request = Request::new(&secret, ());
    request.proof_seed = (1 << 63) - 1;
    request.proof_sign = secret.create_signature(request.proof_seed.to_be_bytes());
    assert!(!matches!(request.validate(), Ok(true)));
}
''', 'a seed just below 2^63', 'requests with a seed without its top bit are accepted as valid')

bug('c03-certificate-of-sender', 'C03', [(S + 'requests/announce/mod.rs', 'valid_cert = client.certificate.validate(&client.public_key, &server.public_key)?;', 'valid_cert = client.certificate.validate(&self.0.public_key, &server.public_key)?;')], '''
#[test]
fn foreign_certificate_is_refused() {
    let (attacker, victim, server) = (SecretKey::random(), SecretKey::random(), SecretKey::random());
    let client = Client::new(victim.public_key(), ConnectionCertificate::new(&attacker, server.public_key()), ClientInfo::thin());
    let request = AnnounceRequest::client(&attacker, client, Server::new(server.public_key(), "s"));
    assert!(!matches!(request.validate(), Ok(true)));
}
''', 'an announcement about another client than the one which signs the request', 'anyone can announce any client at any server: the certificate is checked against the announcer instead of the announced client')

bug('c05-poll-limit', 'C05', [(S + 'middleware/server.rs', '                    request.0.request.limit\n                ).await;', '                    request.0.request.limit.filter(|limit| *limit > 0)\n                ).await;')], '''
#[tokio::test]
async fn limit_zero_keeps_messages() {
    let net = Net::default();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    let (mem, driver) = server(&net, "s", &owner).await;
    driver.messages_inbox().add_message(sender_of(&owner, &owner), client.public_key(), "c".into(), message(&owner, &client.public_key(), b"x")).await.unwrap();
    let request = PollRequest::new(&client, "c", Some(0));
    let reply = mem.call("POST /api/v1/poll", request.to_json().unwrap()).await.unwrap();
    assert_eq!(reply["response"]["messages"].as_array().unwrap().len(), 0);
    assert_eq!(driver.messages_inbox().poll_messages(client.public_key(), "c".into(), None).await.unwrap().0.len(), 1);
}
''', 'a poll with limit 0', 'a poll limited to no messages reads and deletes all of them')

bug('c08-lookup-error-accepted', 'C08', [(S + 'middleware/client.rs', '''        // Check response status
        if let Response::Error { status, reason, .. } = response.0 {
            return Err(Error::RequestFailed {
                status,
                reason
            });
        }

        Ok(())
    }

    #[cfg_attr(feature = "tracing", tracing::instrument(ret, skip_all, fields(
        client_public = client_public.to_base64(),''', '''        // Check response status
        match response.0 {
            Response::Error { status, reason, .. } if !status.is_success() && status != ResponseStatus::RequestValidationFailed => {
                return Err(Error::RequestFailed {
                    status,
                    reason
                });
            }

            _ => ()
        }

        Ok(())
    }

    #[cfg_attr(feature = "tracing", tracing::instrument(ret, skip_all, fields(
        client_public = client_public.to_base64(),''')], '''
#[tokio::test]
async fn refused_announce_is_an_error() {
    let net = Net::default();
    let (owner, user) = (SecretKey::random(), SecretKey::random());
    server(&net, "s", &owner).await;
    let client = ClientMiddleware::new(net.clone(), ClientDriver::thin(user)).connect("s").await.unwrap();
    let refusal = AnnounceResponse::error(ResponseStatus::RequestValidationFailed, "no");
    net.canned.lock().unwrap().insert("http://other/api/v1/announce".into(), refusal.to_json().unwrap());
    assert!(client.announce("http://other").await.is_err());
}
''', 'the announced server refuses the request with status 301', 'announce reports success though the server refused it')

bug('c19-name-clash', 'C19', [('src/crypto/compression/mod.rs', '''            "none" | "plain" => Ok(Self::None),
''', '''            "" | "none" | "plain" => Ok(Self::None),
''')], '''
#[test]
fn empty_compression_is_rejected() {
    assert!("".parse::<Compression>().is_err());
    assert!("base64/aes256-gcm/".parse::<MessageEncoding>().is_err());
}
''', 'an empty compression name', 'an empty text is accepted as the name of a compression')

bug('c24-remaining-default', 'C24', [(S + 'requests/poll/response.rs', '''            remaining: json.get("remaining")
                .and_then(Json::as_u64)
                .ok_or_else(|| AsJsonError::FieldNotFound("remaining"))?''', '''            remaining: match json.get("remaining") {
                Some(remaining) => remaining.as_u64().unwrap_or_default(),
                None => return Err(AsJsonError::FieldNotFound("remaining"))
            }''')], '''
#[test]
fn mistyped_remaining_is_rejected() {
    assert!(PollResponseBody::from_json(&json!({ "messages": [], "remaining": "many" })).is_err());
}
''', 'a reply whose "remaining" is not an unsigned number', 'a mistyped required field is replaced by zero')

bug('c35-skip-undecodable', 'C35', [('src/drivers/server/messages_inbox/stored_queue.rs', '''                        let message_info = serde_json::from_slice::<Json>(&message_info)?;
''', '''                        let Ok(message_info) = serde_json::from_slice::<Json>(&message_info) else {
                            shift += 8;

                            continue;
                        };
''')], '''
#[tokio::test]
async fn broken_message_fails_the_poll() {
    let dir = scratch();
    let inbox = StoredQueueMessagesInbox::new(&dir).await.unwrap();
    let (owner, client) = (SecretKey::random(), SecretKey::random());
    for _ in 0..2 {
        inbox.add_message(sender_of(&owner, &owner), client.public_key(), "c".into(), message(&owner, &client.public_key(), b"x")).await.unwrap();
    }
    let folder = dir.join(client.public_key().to_base64()).join(base64_encode("c"));
    let index = std::fs::read(folder.join("index")).unwrap();
    let first = folder.join(u64::from_be_bytes(index[..8].try_into().unwrap()).to_string());
    let stored = std::fs::read(&first).unwrap();
    std::fs::write(&first, &stored[..stored.len() / 2]).unwrap();
    assert!(inbox.poll_messages(client.public_key(), "c".into(), None).await.is_err());
    std::fs::write(&first, &stored).unwrap();
    assert_eq!(inbox.poll_messages(client.public_key(), "c".into(), None).await.unwrap().0.len(), 2);
}
''', 'a stored message which is only partially written when the inbox is polled', 'the poll drops the id of a message it could not read, which is lost')

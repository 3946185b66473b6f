#!/bin/bash
# Builds the rustc driver and analyses the dependencies once; checks reuse both.
cd "$(dirname "$0")" || exit 1
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
python3 -m hb.build main full release bare no-serde no-client-reqwest no-server-axum no-port-forward-upnp no-router-global-table no-traversal-bfs-recursion no-inbox-stored-queue || exit 1
python3 -m hb.features >/dev/null || true

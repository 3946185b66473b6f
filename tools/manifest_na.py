"""Why a property is not claimed."""
NA = {
 'C50': 'Round-trip equality of the algorithms themselves (flate2, brotli, AES-GCM, ChaCha20-Poly1305, base64) is a numerical fact about dependencies; no static argument in reach bounds it. The structural part this crate owns (which codec, whole input, finish, matching decoder, same key and nonce, errors kept) is claimed as C16-C18.',
 'C51': 'Agreement of the two ECDH+HKDF derivations is elliptic-curve algebra inside dependencies and its secrecy a computational hardness assumption; neither is visible in the shape of the code. The structural part (which keys go into the derivation) is claimed in C15/C16.',
 'C52': 'Linearizability quantifies over histories and interleavings of file-system operations; the code holds no lock whose discipline could be checked, and the file-per-record design is not linearizable for listings. The per-channel lost-update clause that has a static shape is claimed as C36.',
 'C53': 'The library never syncs files, so power-loss durability cannot hold on this tree and is not promised by its documentation; crash states depend on file-system ordering no static argument here bounds. The write-before-announce order is claimed as C34.',
 'C54': 'Bounded response time quantifies over peer behaviour and scheduling; the library sets no timeouts, so there is no construct whose presence on every path would decide it.',
}

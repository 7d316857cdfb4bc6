#!/usr/bin/env python3
"""writes h/<group>/Cargo.toml from the table below"""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = {
    "std": ["!axelar-wasm-std"],
    "route": ["connection-router", "gateway", "-nexus-gateway", "aggregate-verifier", "-batching", "!axelar-wasm-std", "!connection-router-api"],
    "voting": ["voting-verifier", "connection-router", "aggregate-verifier", "gateway", "service-registry", "rewards", "multisig", "!axelar-wasm-std", "!connection-router-api"],
    "multisig": ["multisig", "rewards", "connection-router", "!axelar-wasm-std"],
    "prover": ["multisig-prover", "multisig", "connection-router", "gateway", "service-registry", "voting-verifier", "!axelar-wasm-std", "!connection-router-api"],
    "roles": ["connection-router", "multisig", "multisig-prover", "rewards", "service-registry", "-nexus-gateway", "!axelar-wasm-std", "!connection-router-api"],
    "rewards": ["rewards", "!axelar-wasm-std"],
    "registry": ["service-registry", "connection-router", "!axelar-wasm-std", "!connection-router-api"],
}
EXTRA = {"rewards": 'cw-storage-plus = { version = "1.1.0" }\n', "multisig": 'k256 = { version = "0.13.1", features = ["ecdsa"] }\ned25519-zebra = "3"\n', "prover": 'cw-storage-plus = { version = "1.1.0" }\nk256 = { version = "0.13.1", features = ["ecdsa"] }\nethabi = { version = "18.0.0", default-features = false, features = [] }\nbcs = "0.1.5"\nsha3 = "0.10.8"\n'}
# groups in which serde_json prints symbolic integers
ITOA = ("prover",)
for g, cs in G.items():
    d = os.path.join(ROOT, "h", g)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    s = '[package]\nname = "vxh-%s"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[[bin]]\nname = "vxh"\npath = "src/main.rs"\n\n[dependencies]\n' % g
    s += 'vxlib = { path = "../../lib/vxlib" }\nvxs = { path = "../../lib/vxs" }\ncosmwasm-std = { version = "1.3.3" }\nserde = { version = "1", default-features = false, features = ["derive"] }\n'
    for c in cs:
        if c[0] == "!":
            s += '%s = { path = "/repo/packages/%s" }\n' % (c[1:], c[1:])
        elif c[0] == "-":
            s += '%s = { path = "/repo/contracts/%s" }\n' % (c[1:], c[1:])
        else:
            s += '%s = { path = "/repo/contracts/%s", features = ["library"] }\n' % (c, c)
    s += EXTRA.get(g, "")
    s += '\n[profile.release]\nopt-level = 1\nlto = "fat"\npanic = "abort"\ncodegen-units = 1\noverflow-checks = true\ndebug = false\nincremental = false\n\n[patch.crates-io]\n'
    for c in ("keccak", "hex", "serde-json-wasm", "cosmwasm-std", "cosmwasm-crypto") + (("itoa",) if g in ITOA else ()):
        s += '%s = { path = "../../.build/patched/%s" }\n' % (c, c)
    open(os.path.join(d, "Cargo.toml"), "w").write(s)

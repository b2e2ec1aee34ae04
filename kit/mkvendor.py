#!/usr/bin/env python3
"""One-off: builds kit/vendor from the cargo caches of the sandbox (the result is committed)."""
import json, os, re, shutil, subprocess, tarfile
HOME=os.path.expanduser("~/.cargo/registry/cache")
OLD=f"{HOME}/index.crates.io-6f17d22bba15001f"; NEW=f"{HOME}/index.crates.io-1949cf8c6b5b557f"
OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"vendor")
CRATES="""aho-corasick-1.1.3 anyhow-1.0.89 autocfg-1.4.0 base64ct-1.6.0 block-buffer-0.10.4 cfg-if-1.0.0 chrono-0.4.38
cpufeatures-0.2.14 crypto-common-0.1.6 digest-0.10.7 fastrand-2.1.1 generic-array-0.14.7 getrandom-0.2.15 iana-time-zone-0.1.61
inventory-0.3.15 itoa-1.0.11 libc-0.2.161 memchr-2.7.4 minimal-lexical-0.2.1 nom-7.1.3 num-traits-0.2.19 once_cell-1.20.2
percent-encoding-2.3.1 proc-macro2-1.0.88 quote-1.0.37 regex-1.11.0 regex-automata-0.4.8 regex-syntax-0.8.5 ryu-1.0.18
serde-1.0.210 serde_derive-1.0.210 serde_json-1.0.129 serde_json_path-0.6.7 serde_json_path_core-0.1.6
serde_json_path_macros-0.1.4 serde_json_path_macros_internal-0.1.1 sha2-0.10.8 syn-2.0.79 thiserror-1.0.64
thiserror-impl-1.0.64 typenum-1.17.0 unicode-ident-1.0.13 version_check-0.9.5
adler2-2.0.1 bitvec-1.1.1 ciborium-0.2.2 ciborium-io-0.2.2 ciborium-ll-0.2.2 crc32fast-1.5.0 crunchy-0.2.4
curve25519-dalek-4.1.3 ed25519-2.2.3 ed25519-dalek-2.1.1 flate2-1.1.1 funty-2.0.0 half-2.7.1
miniz_oxide-0.8.9 pin-project-lite-0.2.17 ppv-lite86-0.2.21 radium-0.7.0 rand-0.8.8 rand_chacha-0.3.1 rand_core-0.6.4
signature-2.2.0 subtle-2.6.1 tap-1.0.1 tracing-0.1.44 tracing-attributes-0.1.31
tracing-core-0.1.36 urlencoding-2.1.3 wyz-0.5.1 zerocopy-0.8.27 zerocopy-derive-0.8.27 zeroize-1.8.1""".split()
os.makedirs(OUT,exist_ok=True)
have=set()
def crate(c):
    for d in (OLD,NEW):
        if os.path.exists(f"{d}/{c}.crate"): return f"{d}/{c}.crate"
    raise SystemExit("missing "+c)
names={re.match(r"(.*)-\d+\.\d",c).group(1) for c in CRATES}
STUBS={"vercre-did","vercre-infosec","coset","qrcode","image","derive_builder","uuid"}
for c in CRATES:
    dst=f"{OUT}/{c}"
    shutil.rmtree(dst,ignore_errors=True)
    with tarfile.open(crate(c)) as t: t.extractall(OUT)
    for junk in ("tests","benches","examples","bench","ci",".github","fuzz","Cargo.toml.orig","Cargo.lock",".cargo_vcs_info.json","CHANGELOG.md","testdata","etc","book","test-macros"):
        p=f"{dst}/{junk}"
        if c.startswith("ed25519-dalek") and junk=="docs": continue
        if os.path.isdir(p): shutil.rmtree(p)
        elif os.path.exists(p): os.remove(p)
    m=open(f"{dst}/Cargo.toml").read()
    # split in tables, drop targets/dev-deps and optional/target deps that are not vendored
    parts=re.split(r"(?m)^(?=\[)",m)
    keep=[];dropped=set()
    for p in parts:
        h=p.split("\n",1)[0].strip()
        if re.match(r"\[\[(test|bench|example)\]\]",h): continue
        if "dev-dependencies" in h: continue
        t=re.match(r"\[(?:target\.(.*)\.)?(?:build-)?dependencies\.\"?([^\]\"]+)\"?\]$",h)
        if t:
            n=t.group(2); pk=re.search(r'(?m)^package = "([^"]+)"',p); real=pk.group(1) if pk else n
            if t.group(1) and re.search(r"windows|wasm|android|hermit|apple|macos|haiku|wasi|solaris|sgx|fuchsia|miri|loom|tracing_unstable|fiat",t.group(1)) and real not in ("libc",) or real not in names|STUBS:
                dropped.add(n); continue
        keep.append(p)
    m="".join(keep)
    deps=set(re.findall(r'(?m)^\[(?:target\..*\.)?(?:build-)?dependencies\."?([^\]"]+)"?\]$',m))
    segs=re.split(r"(?m)^(?=\[)",m)
    for i,g in enumerate(segs):
        if g.startswith("[features]"):
            feats=set(re.findall(r'(?m)^"?([\w\-\.]+)"? = ',g))
            def ok(x):
                x=x.strip('"')
                if x.startswith("dep:"): return x[4:] in deps
                if "/" in x: return re.split(r"\??/",x)[0] in deps
                return x in feats or x in deps
            segs[i]=re.sub(r'(?ms)^("?[\w\-\.]+"? = )\[(.*?)\]',lambda f:f.group(1)+"["+", ".join(x for x in re.findall(r'"[^"]*"',f.group(2)) if ok(x))+"]",g)
    m="".join(segs)
    open(f"{dst}/Cargo.toml","w").write(m)
    open(f"{dst}/.cargo-checksum.json","w").write('{"files":{},"package":null}')
# --- patches ---
# no SIMD backend (and none of the crates that select it)
open(f"{OUT}/curve25519-dalek-4.1.3/build.rs","w").write('''fn main() {
    println!("cargo:rustc-cfg=curve25519_dalek_bits=\\"64\\"");
    println!("cargo:rustc-cfg=curve25519_dalek_backend=\\"serial\\"");
}
''')
# a clock the checks can move: Utc::now() is the real clock plus a per-thread offset
p=f"{OUT}/chrono-0.4.38/src/offset/utc.rs"; s=open(p).read()
a='''        let now =
            SystemTime::now().duration_since(UNIX_EPOCH).expect("system time before Unix epoch");
'''
assert a in s
s=s.replace(a,'''        let now =
            SystemTime::now().duration_since(UNIX_EPOCH).expect("system time before Unix epoch");
        let now = now + std::time::Duration::from_millis(
            VERIF_CLOCK_OFFSET_MS.with(std::cell::Cell::get),
        );
''')
s=s.replace("impl Utc {",'''std::thread_local! {
    /// Added by the verification kit: milliseconds added to `Utc::now()` on this thread.
    #[doc(hidden)]
    pub static VERIF_CLOCK_OFFSET_MS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

impl Utc {''',1)
open(p,"w").write(s)
p=f"{OUT}/chrono-0.4.38/src/offset/mod.rs"; s=open(p).read()
assert "pub use self::utc::Utc;" in s
s=s.replace("pub use self::utc::Utc;","pub use self::utc::Utc;\n#[doc(hidden)]\npub use self::utc::VERIF_CLOCK_OFFSET_MS;")
open(p,"w").write(s)

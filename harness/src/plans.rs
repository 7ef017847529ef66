//! Which simulated executions decide which property.

pub struct Plan {
    pub profile: String,
    pub count: u64,
    pub batch: u64,
}

fn rows(prop: &str) -> &'static [(&'static str, u64)] {
    match prop {
        "C01" => &[("world-grant-toy", 5000), ("world-rotate-toy", 1000), ("world-delegate-toy", 1000), ("world-grant-bls", 300), ("world-grant-mix", 200)],
        "C02" => &[("world-satisfy-toy", 4000), ("world-satisfy-mix", 400), ("world-satisfy-bls", 200)],
        "C03" => &[("world-rotate-toy", 4000), ("world-rotate-mix", 240), ("world-rotate-bls", 120)],
        "C04" => &[("world-delegate-toy", 6000), ("world-delegate-bls", 500), ("world-orand-bls", 8)],
        "C05" => &[("world-store-toy", 4000), ("world-store-mix", 400), ("world-store-bls", 200)],
        "C06" => &[("native-damage", 800), ("world-damage-toy", 3000), ("world-damage-bls", 300), ("world-damage-native", 200)],
        "C07" => &[("native-blocks", 600), ("world-blocks-toy", 3000), ("world-blocks-mix", 300)],
        "C08" => &[("native-registry", 700), ("native-lifetime", 500), ("native-many", 30), ("native-mix", 80), ("native-repeat", 80)],
        "C09" => &[("native-pair", 1200), ("native-registry", 150), ("world-satisfy-native", 150)],
        "C10" => &[("native-errors", 700), ("native-mix", 120)],
        "C11" => &[("native-buffers", 900), ("native-mix", 80)],
        "C12" => &[("fresh-core", 240), ("fresh-native", 180)],
        "C13" => &[("native-repeat", 350), ("native-solo", 250), ("native-invalid", 300), ("native-buffers", 500)],
        "C14" => &[("native-solo", 600), ("native-errors", 200), ("native-mix", 160)],
        "C15" => &[("native-registry", 300), ("native-mix", 400), ("native-lifetime", 200)],
        "C16" => &[("native-invalid", 800), ("world-bad-toy", 3000), ("world-bad-bls", 200), ("world-bad-native", 200)],
        _ => &[],
    }
}

/// through the Python and WebAssembly interfaces, if they could be built
fn remote_rows(prop: &str) -> &'static [(&'static str, u64)] {
    match prop {
        "C01" => &[("world-grant-py", 60), ("world-grant-js", 32)],
        "C02" => &[("world-satisfy-py", 80), ("world-satisfy-js", 40)],
        "C03" => &[("world-rotate-py", 60), ("world-rotate-js", 24)],
        "C04" => &[("world-delegate-py", 100)],
        "C05" => &[("world-store-py", 80), ("world-store-js", 40)],
        "C06" => &[("world-damage-py", 80), ("world-damage-js", 40)],
        "C07" => &[("world-blocks-py", 100), ("world-blocks-js", 48)],
        "C08" => &[("world-satisfy-js", 24)],
        "C09" => &[("world-satisfy-js", 40)],
        "C16" => &[("world-bad-py", 100), ("world-bad-js", 48)],
        _ => &[],
    }
}
pub fn remote(prop: &str) -> bool {
    !remote_rows(prop).is_empty()
}

pub fn plan(prop: &str, tier: &str) -> Vec<Plan> {
    let k = if tier == "quick" { 1 } else { 40 };
    rows(prop)
        .iter()
        .chain(remote_rows(prop))
        .filter(|(p, _)| (!p.ends_with("-py") || crate::remote::ready(true)) && (!p.ends_with("-js") || crate::remote::ready(false)))
        .map(|(p, n)| Plan { profile: p.to_string(), count: n * k, batch: 8 })
        .collect()
}

/// what ran as it is in production, and what stood in for something
pub fn components(plan: &[Plan]) -> (Vec<&'static str>, Vec<&'static str>) {
    let any = |f: &dyn Fn(&str) -> bool| plan.iter().any(|p| f(&p.profile));
    let fresh = any(&|p| p.starts_with("fresh"));
    let world = fresh || any(&|p| p.starts_with("world"));
    let native = any(&|p| p.starts_with("native") || p == "fresh-native" || ["-native", "-mix", "-py", "-js"].iter().any(|s| p.ends_with(s)));
    let (py, js) = (any(&|p| p.ends_with("-py")), any(&|p| p.ends_with("-js")));
    let toy = cfg!(feature = "toy") && any(&|p| p.ends_with("-toy"));
    let bls = any(&|p| !p.ends_with("-toy"));
    let mut real = vec!["abe_gpsw: span programs, key generation, encryption, decryption, delegation (core)"];
    if bls {
        real.push("BLS12-381 pairing and scalar arithmetic (cosmian_bls12_381)");
    }
    real.push("abe_policy, AES-256-GCM and CsRng (cosmian_crypto_base)");
    if world {
        real.push("abe_gpsw: hybrid headers and blocks, byte encodings");
    }
    if native {
        real.push("abe_gpsw: native interface (h_* functions, cache registries, thread-local errors)");
        real.push("std::sync locks and thread-locals, threads of the operating system (scheduled by the simulator)");
    }
    if py {
        real.push("abe_gpsw: Python interface in CPython (a helper process that carries out one call at a time)");
    }
    if js {
        real.push("abe_gpsw: WebAssembly interface in node, one-shot and cached (a helper process that carries out one call at a time)");
    }
    let mut stub = vec!["entropy: getrandom() answers from the seed of the case, with interrupted and short reads"];
    if native {
        stub.push("futex, sched_yield, sleeping: carried out by the simulator, so that only the scheduled thread runs");
        stub.push("clock_gettime: simulated clock");
    }
    if fresh {
        real.push("fork(): the operation under test runs in copies of the process image");
    }
    if world && !fresh {
        stub.push("network: messages with delay, loss, duplication, damage and partitions");
        stub.push("storage: durable and volatile copies, lost, torn and damaged writes");
    }
    if toy {
        stub.push("pairing group of the *-toy profiles: exponents modulo 2^61-1 (same scheme code, no cryptographic hardness)");
    }
    (real, stub)
}

pub fn measure(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C04" => "distinct tuples of (shape of the key's policy, kind of key, versions of key and header, number of header values satisfied, outcome) over all reads",
        "C12" => "distinct tuples of (operation, interface, kind of entropy, outcome, thread, length of the history)",
        "C05" | "C06" | "C07" => "distinct tuples of (kind of object, kind and place of damage or restart history, outcome) over all uses",
        "C16" => "distinct tuples of (kind of invalid request, way of calling, outcome)",
        _ => "distinct hashes of the interleaving of synchronisation operations (locks, waits, thread-local slots, shared cells) of one case",
    }
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut w = base_assumptions(prop);
    if remote(prop) && !(crate::remote::ready(true) && crate::remote::ready(false)) {
        w.push("the Python or the WebAssembly interface could not be built: its profiles did not run");
    }
    w
}
fn base_assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "seeded search: what no explored execution reached is not decided",
        "the hardness of BLS12-381 and AES-GCM is assumed; the simulator checks what is computed, not what an adversary could compute",
    ];
    match prop {
        "C08" | "C09" | "C10" | "C13" | "C14" | "C15" => {
            v.push("threads switch at instrumented memory accesses, atomics and system calls; instructions between two of them run as one step, in sequentially consistent order")
        }
        "C01" | "C02" | "C03" | "C04" | "C05" => v.push(
            "most executions run the scheme over a small stand-in group; the real group runs in the bls, native and mix profiles",
        ),
        _ => {}
    }
    v
}

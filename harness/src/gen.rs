//! Random operations for recording traces of the real crate.

use serde_json::{json, Value};

/// splitmix64
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T: ?Sized>(&mut self, items: &[&'a T]) -> &'a T {
        items[self.below(items.len())]
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
}

const NOISE: &[&str] = &[
    "a", "b", "z", "A", "Z", "0", "1", "9", "-", "_", ".", ":", "/", "@", "=", ",", " ", "\t", "\n",
    "$", "[", "]", "#", "é", "ß", "\u{a0}", "~", "*", "x-", "\\", "\"", "'", "%", "é\u{301}", "{", "}",
];

/// Between 0 and 3 random edits of `s`.
fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut chars: Vec<char> = s.chars().collect();
    let edits = [0, 0, 1, 1, 1, 2, 3][rng.below(7)];
    for _ in 0..edits {
        let at = rng.below(chars.len() + 1);
        match rng.below(4) {
            0 if at < chars.len() => {
                chars.remove(at);
            }
            1 if at < chars.len() => {
                let c = chars[at];
                chars.insert(at, c);
            }
            2 if at < chars.len() => {
                let with: Vec<char> = rng.pick(NOISE).chars().collect();
                chars.splice(at..=at, with);
            }
            _ => {
                let with: Vec<char> = rng.pick(NOISE).chars().collect();
                chars.splice(at..at, with);
            }
        }
    }
    chars.into_iter().collect()
}

/// A word over `alphabet` of length between `min` and `max`.
fn word(rng: &mut Rng, alphabet: &str, min: usize, max: usize) -> String {
    let chars: Vec<char> = alphabet.chars().collect();
    let len = min + rng.below(max - min + 1);
    (0..len).map(|_| chars[rng.below(chars.len())]).collect()
}

pub fn generate(area: &str, rng: &mut Rng) -> (String, Value) {
    match area {
        "image-parse" => image_parse(rng),
        "image-edits" => image_edits(rng),
        "keys" => keys(rng),
        "ranges" => ranges(rng),
        "ports" => ports(rng),
        "port-forms" => port_forms(rng),
        "durations" => durations(rng),
        "sizes" => texts(rng, &["bytes.parse", "limit.u32", "limit.u64", "limit.bytes"]),
        "cpus" => texts(rng, &["cpus.parse"]),
        "users" => texts(rng, &["id.parse", "user.parse"]),
        "devices" => texts(rng, &["perms.parse", "device.parse", "cgroup.parse"]),
        "platforms" => texts(rng, &["platform.parse"]),
        "refs" => texts(
            rng,
            &["netmode.parse", "ipc.parse", "link.parse", "volumesfrom.parse", "mac.parse", "ssh.parse", "buildnet.parse",
                "cache.parse", "context.path"],
        ),
        "volumes" => texts(rng, &["abspath.parse", "hostpath.parse", "source.parse", "volume.parse", "volume.parse", "volume.parse"]),
        "volume-forms" => volume_forms(rng),
        "paths" => paths(rng),
        "validation" => validation(rng),
        "values" => values(rng),
        "anything" => anything(rng),
        "mangled" => mangled(rng),
        _ => panic!("unknown area {area}"),
    }
}

fn component(rng: &mut Rng) -> String {
    let mut s = word(rng, "abcxyz0189", 1, 6);
    for _ in 0..rng.below(3) {
        s += rng.pick(&[".", "_", "__", "-", "--", "---"]);
        s += &word(rng, "abcxyz0189", 1, 4);
    }
    s
}

fn registry(rng: &mut Rng) -> String {
    let mut s = format!("{}.{}", word(rng, "abc09", 1, 5), word(rng, "abc09", 1, 3));
    if rng.chance(2) {
        s += &format!(":{}", [0, 1, 80, 443, 5000, 65535][rng.below(6)]);
    }
    s
}

fn image_tag(rng: &mut Rng) -> String {
    let max = if rng.chance(8) { 128 } else { 12 };
    word(rng, "abzABZ019._-", 1, max)
}

fn image_digest(rng: &mut Rng) -> String {
    let mut s = word(rng, "shax256", 1, 6);
    if rng.chance(3) {
        s += rng.pick(&["+", ".", "_", "-"]);
        s += &word(rng, "b64", 1, 3);
    }
    s + ":" + &word(rng, "abcdefABC0189=_-", 1, 64)
}

/// A name of at least one component besides the registry, with no dot in its second component.
fn image_name(rng: &mut Rng) -> String {
    let plain = |rng: &mut Rng| component(rng).replace('.', "-");
    let mut s = plain(rng);
    for _ in 0..rng.below(3) {
        s += "/";
        s += &component(rng);
    }
    if rng.chance(2) {
        s = format!("{}/{s}", registry(rng));
    }
    s
}

fn image_ref(rng: &mut Rng) -> String {
    let name = image_name(rng);
    match rng.below(3) {
        0 => name,
        1 => name + ":" + &image_tag(rng),
        _ => name + "@" + &image_digest(rng),
    }
}

fn image_parse(rng: &mut Rng) -> (String, Value) {
    match rng.below(5) {
        0 => ("image.name".into(), {
            let s = image_name(rng);
            json!({ "s": mutate(rng, &s) })
        }),
        1 => ("image.tag".into(), {
            let s = image_tag(rng);
            json!({ "s": mutate(rng, &s) })
        }),
        2 => ("image.digest".into(), {
            let s = image_digest(rng);
            json!({ "s": mutate(rng, &s) })
        }),
        _ => ("image.parse".into(), {
            let s = image_ref(rng);
            json!({ "s": mutate(rng, &s) })
        }),
    }
}

fn image_edits(rng: &mut Rng) -> (String, Value) {
    let start = image_ref(rng);
    let len = 1 + rng.below(12);
    let edits: Vec<Value> = (0..len)
        .map(|_| match rng.below(11) {
            0 | 1 => json!({ "e": "registry", "v": [registry(rng)] }),
            2 => json!({ "e": "registry", "v": [] }),
            3 => json!({ "e": "name", "v": [image_name(rng)] }),
            4 => json!({ "e": "tag", "v": [image_tag(rng)] }),
            5 => json!({ "e": "digest", "v": [image_digest(rng)] }),
            6 => json!({ "e": "tag", "v": [] }),
            7 => json!({ "e": "digest", "v": [] }),
            8 => json!({ "e": "tod-tag", "v": [image_tag(rng)] }),
            9 => json!({ "e": "tod-digest", "v": [image_digest(rng)] }),
            _ => json!({ "e": "reassemble", "v": [] }),
        })
        .collect();
    ("image.edits".into(), json!({ "s": start, "es": edits }))
}

/// `{ "s": a mutation of s }`
fn near(rng: &mut Rng, s: &str) -> Value {
    json!({ "s": mutate(rng, s) })
}

fn keys(rng: &mut Rng) -> (String, Value) {
    let (op, s) = match rng.below(8) {
        0 => ("key.project", word(rng, "abz019_-", 1, 20)),
        1 => ("key.identifier", word(rng, "abzABZ019._-", 1, 40)),
        2 => ("key.map", word(rng, "aZ0 =:.-\té\u{ff}", 1, 20)),
        3 => ("key.extension", "x-".to_owned() + &word(rng, "aZ0 =:.-é", 0, 20)),
        4 => ("key.hostname", {
            let labels: Vec<String> = (0..1 + rng.below(4)).map(|_| word(rng, "aZ09-", 1, 8)).collect();
            labels.join(".")
        }),
        5 => ("key.ulimit", word(rng, "abcxyz", 1, 12)),
        6 => ("key.user", word(rng, "aZ09_-", 1, 34) + rng.pick(&["", "", "$"])),
        _ => ("key.cacheoption", word(rng, "aZ09:/=,.-é", 1, 20)),
    };
    (op.into(), near(rng, &s))
}

fn port_number(rng: &mut Rng) -> u16 {
    match rng.below(6) {
        0 => rng.below(12) as u16,
        1 => (65535 - rng.below(12)) as u16,
        2 => [79, 80, 99, 100, 255, 256, 443, 999, 1000, 9999, 10000, 32767, 32768][rng.below(13)],
        _ => rng.below(65536) as u16,
    }
}

fn span(rng: &mut Rng, max: usize) -> usize {
    match rng.below(6) {
        0..=2 => 0,
        3 => 1.min(max),
        4 => rng.below(20).min(max),
        _ => rng.below(max + 1),
    }
}

fn port_range(rng: &mut Rng, start: u16, span: usize) -> String {
    let end = usize::from(start) + span;
    if span == 0 && !rng.chance(6) {
        start.to_string()
    } else {
        format!("{start}-{end}")
    }
}

fn ranges(rng: &mut Rng) -> (String, Value) {
    let start = port_number(rng);
    match rng.below(4) {
        0 => {
            let e = if rng.chance(4) { json!([]) } else { json!([port_number(rng)]) };
            ("range.new".into(), json!({ "s": start, "e": e }))
        }
        1 => {
            let span = span(rng, usize::from(65535 - start)) as u16;
            let end = start + span;
            let k = if rng.chance(6) {
                rng.below(131_071) as i64 - 65535
            } else if rng.chance(2) {
                -(rng.below(usize::from(start) + 1) as i64)
            } else { rng.below(usize::from(65535 - end) + 1) as i64 };
            ("range.shift".into(), json!({ "s": start, "e": if span == 0 { json!([]) } else { json!([end]) }, "k": k }))
        }
        _ => {
            let span = span(rng, usize::from(65535 - start));
            let s = port_range(rng, start, span);
            ("range.parse".into(), near(rng, &s))
        }
    }
}

fn ip(rng: &mut Rng) -> String {
    match rng.below(3) {
        0 => (0..4).map(|_| rng.pick(&["0", "1", "10", "127", "192", "255"])).collect::<Vec<_>>().join("."),
        1 => {
            let mut groups: Vec<String> = (0..8).map(|_| rng.pick(&["0", "0", "0", "1", "ffff", "2001", "db8", "0a"]).to_owned()).collect();
            if rng.chance(2) {
                groups[rng.below(8)] = String::new();
            }
            let s = groups.join(":");
            if rng.chance(2) { s } else { format!("[{s}]") }
        }
        _ => {
            let head: Vec<&str> = (0..rng.below(4)).map(|_| rng.pick(&["0", "1", "fe80", "2001"])).collect();
            let tail: Vec<&str> = (0..rng.below(4)).map(|_| rng.pick(&["0", "1", "ffff", "1.2.3.4"])).collect();
            let s = format!("{}::{}", head.join(":"), tail.join(":"));
            if rng.chance(2) { s } else { format!("[{s}]") }
        }
    }
}

fn protocol(rng: &mut Rng) -> &'static str {
    ["", "", "/tcp", "/udp", "/sctp", "/TCP", "/"][rng.below(7)]
}

fn short_port(rng: &mut Rng, max_span: usize) -> String {
    let (host, container) = (port_number(rng), port_number(rng));
    let span = span(rng, max_span.min(usize::from(65535 - host)).min(usize::from(65535 - container)));
    let off = if rng.chance(8) && span > 0 { span - 1 } else { span };
    let mut s = String::new();
    let ip_given = rng.chance(3);
    if ip_given {
        s += &ip(rng);
        s.push(':');
    }
    if rng.chance(2) {
        s += &port_range(rng, host, off);
        s.push(':');
    } else if ip_given || rng.chance(8) {
        s.push(':');
    }
    s + &port_range(rng, container, span) + protocol(rng)
}

fn ports(rng: &mut Rng) -> (String, Value) {
    match rng.below(5) {
        0 => {
            let start = port_number(rng);
            let span = span(rng, usize::from(65535 - start));
            let s = port_range(rng, start, span) + protocol(rng);
            ("expose.parse".into(), near(rng, &s))
        }
        1 => {
            let s = short_port(rng, 65535);
            let s = s.split('/').next().unwrap_or_default().to_owned();
            ("ranges.parse".into(), near(rng, &s))
        }
        _ => {
            let s = short_port(rng, 65535);
            ("port.parse".into(), near(rng, &s))
        }
    }
}

fn maybe(rng: &mut Rng, value: String) -> Value {
    if rng.chance(2) { json!([value]) } else { json!([]) }
}

fn port_forms(rng: &mut Rng) -> (String, Value) {
    match rng.below(3) {
        0 => {
            let s = short_port(rng, 300);
            ("port.expand".into(), near(rng, &s))
        }
        1 => {
            let published = port_number(rng);
            let span = span(rng, usize::from(65535 - published));
            let published = if span == 0 { published.to_string() } else { port_range(rng, published, span) };
            let ip: std::net::IpAddr = loop {
                if let Ok(ip) = ip(rng).trim_matches(['[', ']']).parse() {
                    break ip;
                }
            };
            let proto = protocol(rng).trim_start_matches('/').to_owned();
            let rare = |rng: &mut Rng, v: &str| if rng.chance(6) { json!([v]) } else { json!([]) };
            (
                "port.shorten".into(),
                json!({
                    "target": port_number(rng), "published": maybe(rng, published), "host_ip": maybe(rng, ip.to_string()),
                    "protocol": maybe(rng, proto), "name": rare(rng, "n"), "app_protocol": rare(rng, "http"),
                    "mode": rare(rng, "host"), "ext": rare(rng, "x-y"),
                }),
            )
        }
        _ => {
            let sizes = [0, 0, 1, 2, 65534, 65535];
            let mut range = |rng: &mut Rng| {
                let span = sizes[rng.below(6)];
                let start = rng.below(65536 - span) as u16;
                if span == 0 { start.to_string() } else { format!("{start}-{}", usize::from(start) + span) }
            };
            let start = range(rng);
            let edits: Vec<Value> = (0..1 + rng.below(12))
                .map(|_| match rng.below(5) {
                    0 => json!({ "e": "take", "v": "" }),
                    1 | 2 => json!({ "e": "host", "v": range(rng) }),
                    _ => json!({ "e": "container", "v": range(rng) }),
                })
                .collect();
            ("port.edits".into(), json!({ "s": start, "es": edits }))
        }
    }
}

/// Typical texts of a language, from which random ones are crossed and mutated.
fn seeds(op: &str) -> &'static [&'static str] {
    match op {
        "duration.parse" => &["1h30m", "10ms", "40s", "1m30s", "1h5m30s20ms", "0s", "0us", "7h", "1s1us", "5m1h", "18446744073709551615s", "1000000us"],
        "bytes.parse" => &["0", "100", "1b", "12kb", "300mb", "7gb", "5k", "6m", "7g", "5K", "6M", "7G", "18446744073709551615kb", "8B"],
        "limit.u32" | "limit.u64" => &["-1", "0", "5", "4294967295", "4294967296", "18446744073709551615", "-2", "007", "+3"],
        "limit.bytes" => &["-1", "0", "5", "5kb", "60m", "18446744073709551615gb", "-2", "-1b"],
        "cpus.parse" => &["0", "0,1", "0-3", "0-3,5,7-9", "5,3,1", "1-2,2-3", "10-12,13", "7,7", "1-1", "18446744073709551615", "3-1", "0-3,"],
        "id.parse" => &["0", "1000", "root", "www-data", "4294967295", "4294967296", "user$", "_apt", "a1"],
        "user.parse" => &["0:0", "root", "root:root", "1000:users", "www-data:33", "a:b", "4294967296:1", "user$:g$"],
        "perms.parse" => &["", "r", "rw", "rwm", "mwr", "rr"],
        "device.parse" => &["/dev/a:/dev/b", "/dev/a:/dev/b:rwm", "a:/b:r", ":/b", "/a:b", "/a:/b:", "/dev/x-1:/dev/y_2:mw", "vendor.com/class=n:/d"],
        "cgroup.parse" => &["c 1:3 mr", "a *:* rwm", "b 7:* w", "c 1:3", "a : ", "b 65535:65536 r", "c 1:2:3 r"],
        "platform.parse" => &["linux", "linux/amd64", "linux/arm/v7", "linux/arm64/v8", "darwin/arm64", "windows/amd64", "js/wasm", "linux/ppc64le",
            "linux/mips64le", "freebsd/386", "wasip1/wasm", "aix/ppc64", "linux/riscv64", "android/arm/v6"],
        "netmode.parse" => &["none", "host", "service:db", "container:my_c.1", "bridge", "slirp4netns", "service:", "None"],
        "ipc.parse" => &["shareable", "service:db", "host", "private", "container:x", "service:-"],
        "link.parse" => &["db", "db:database", "my-db.1:alias", "db:", "db:a:b"],
        "volumesfrom.parse" => &["db", "db:ro", "db:rw", "container:c", "container:c:ro", "container:c:rw", "container:ro", "container:rw", "ro:rw"],
        "mac.parse" => &["92:d0:c6:0a:29:33", "00:00:00:00:00:01", "FF:ff:Ff:fF:0:1", "1:2:3:4:5", "1:2:3:4:5:6:7", "+1:2:3:4:5:6", "001:2:3:4:5:100"],
        "ssh.parse" => &["default", "id=/path", "my id=./p=q", "=/p", "id="],
        "buildnet.parse" => &["none", "host", "my_net.1", "None", "-a"],
        "cache.parse" => &["type=gha", "type=registry,ref=quay.io/a/b:t", "quay.io/a/b:t", "alpine", "type=local,src=/p,dest=q", "type=registry,ref=a,mode=max",
            "type=s3,k=v,k=w", "type=a,type=b", "ref=a,type=registry", "type=registry", "type=a,b"],
        "abspath.parse" | "hostpath.parse" | "source.parse" => &["/", "/a", "/a/b-c.d", ".", "..", "./a", "../x/y", "a/b", "data", "my_vol.1",
            ".hidden", "...", "//a", "~/a", "/a b/é"],
        "volume.parse" | "volume.expand" => &["/data", "data:/data", "./src:/app", "../x:/y:ro", "/a/b:/c/d:rw,z", "vol.1:/x:Z", "a:/b:ro,Z", "a:/b:z,rw",
            ".hidden:/x", "..:/", "/:/:ro", "a:b", "a:/b:", "a:/b:ro,rw", "a:/b:z,Z", "a:/b:ro,ro", "a:/b:c:d", "./a:/b:nocopy"],
        _ => &[".", "./dir", "/abs/dir", "../x y", "a/b.git", "dir#x"],
    }
}

fn number(rng: &mut Rng) -> String {
    rng.pick(&[
        "0", "1", "2", "9", "10", "59", "60", "61", "99", "100", "255", "256", "999", "1000", "1001", "3600", "65535", "65536", "4294967295",
        "4294967296", "18446744073709", "18446744073710", "18446744073709551", "18446744073709552", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999999", "007",
    ])
    .to_owned()
}

/// Replace one run of digits.
fn renumber(rng: &mut Rng, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let starts: Vec<usize> = (0..chars.len()).filter(|&i| chars[i].is_ascii_digit() && (i == 0 || !chars[i - 1].is_ascii_digit())).collect();
    if starts.is_empty() {
        return s.to_owned();
    }
    let at = starts[rng.below(starts.len())];
    let len = chars[at..].iter().take_while(|c| c.is_ascii_digit()).count();
    let new = if rng.chance(2) { number(rng) } else { (rng.next() >> rng.below(64)).to_string() };
    chars[..at].iter().collect::<String>() + &new + &chars[at + len..].iter().collect::<String>()
}

/// A text of one of the languages: a typical one, crossed with another, renumbered, mutated.
fn texts(rng: &mut Rng, ops: &[&str]) -> (String, Value) {
    loop {
        let op = ops[rng.below(ops.len())];
        let seeds = seeds(op);
        let mut s = rng.pick(seeds).to_owned();
        if rng.chance(3) {
            let other: Vec<char> = rng.pick(seeds).chars().collect();
            let this: Vec<char> = s.chars().collect();
            s = this[..rng.below(this.len() + 1)].iter().chain(&other[rng.below(other.len() + 1)..]).collect();
        }
        if rng.chance(3) {
            s = renumber(rng, &s);
        }
        let case = if op.starts_with("volume.") && rng.chance(3) {
            let options: Vec<&str> = (0..1 + rng.below(4)).map(|_| rng.pick(&["ro", "rw", "z", "Z"])).collect();
            json!({ "s": format!("{}:{}", rng.pick(&["./s:/t", "d:/x", "/:/a/b", "..:/c"]), options.join(",")) })
        } else {
            near(rng, &s)
        };
        let s = case["s"].as_str().unwrap_or_default();
        // The library materialises every CPU; a text without a colon cannot be a URL.
        let skip = match op {
            "cpus.parse" => s.split(',').any(|item| {
                item.split_once('-').is_some_and(|(a, b)| match (a.parse::<u64>(), b.parse::<u64>()) {
                    (Ok(a), Ok(b)) => b.saturating_sub(a) > 2000,
                    _ => false,
                })
            }),
            "context.path" => s.contains(':'),
            _ => false,
        };
        if !skip {
            return (op.to_owned(), case);
        }
    }
}

fn durations(rng: &mut Rng) -> (String, Value) {
    if rng.chance(3) {
        let secs = if rng.chance(2) { rng.next() >> rng.below(64) } else { rng.below(100_000) as u64 };
        let nanos = if rng.chance(2) { rng.below(1_000_000_000) } else { rng.below(1000) * 1_000_000 };
        return ("duration.of".into(), json!({ "secs": secs.to_string(), "nanos": nanos }));
    }
    if rng.chance(2) {
        let s: String = (0..1 + rng.below(5))
            .map(|_| {
                let n = if rng.chance(6) { number(rng) } else { rng.below(2000).to_string() };
                n + rng.pick(&["h", "m", "s", "ms", "us"])
            })
            .collect();
        return ("duration.parse".into(), near(rng, &s));
    }
    texts(rng, &["duration.parse"])
}

fn some_path(rng: &mut Rng, first: &[&str]) -> String {
    let mut s = rng.pick(first).to_owned();
    for _ in 0..rng.below(4) {
        s += rng.pick(&["/", "/", "/", "//", "/./"]);
        s += rng.pick(&["a", "b.c", "..", ".", "é ü", "x-y_z", ".d"]);
    }
    if rng.chance(5) {
        s += rng.pick(&["/", "/.", "//"]);
    }
    s
}

fn paths(rng: &mut Rng) -> (String, Value) {
    let kind = rng.pick(&["abspath", "hostpath"]);
    let start = if kind == "abspath" || rng.chance(3) {
        some_path(rng, &["/a", "/", "/..", "//b"])
    } else {
        some_path(rng, &[".", "..", "./a", "../b"])
    };
    let edits: Vec<Value> = (0..1 + rng.below(12))
        .map(|_| {
            if rng.chance(2) {
                json!({ "e": "pop", "v": "" })
            } else {
                json!({ "e": "push", "v": some_path(rng, &["a", "b", ".", "..", "", "c", "d", "e", "f", "/r"]) })
            }
        })
        .collect();
    ("path.edits".into(), json!({ "kind": kind, "s": start, "es": edits }))
}

fn volume_forms(rng: &mut Rng) -> (String, Value) {
    if rng.chance(2) {
        return texts(rng, &["volume.expand"]);
    }
    let rare = |rng: &mut Rng, v: &str| if rng.chance(8) { json!([v]) } else { json!([]) };
    let none = || json!([]);
    let kind = rng.pick(&["volume", "volume", "bind", "bind", "bind", "tmpfs", "npipe", "cluster"]);
    let source = match kind {
        "volume" => {
            let id = word(rng, "aZ0", 1, 3) + &word(rng, "aZ0._-", 0, 5);
            maybe(rng, id)
        }
        "tmpfs" => none(),
        "cluster" => json!([word(rng, "aZ0:/.", 0, 6)]),
        _ => json!([some_path(rng, &[".", "..", "/a", "/a:b", "/", "./c"])]),
    };
    let mut opts = json!({ "nocopy": false, "subpath": none(), "propagation": none(), "create": false, "selinux": none(),
        "size": none(), "mode": none(), "ext": rare(rng, "x-o") });
    match kind {
        "volume" => {
            opts["nocopy"] = json!(rng.chance(4));
            opts["subpath"] = rare(rng, "a/b");
        }
        "bind" => {
            opts["propagation"] = if rng.chance(4) {
                json!([rng.pick(&["private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"])])
            } else {
                none()
            };
            opts["create"] = json!(!rng.chance(4));
            opts["selinux"] = if rng.chance(2) { json!([rng.pick(&["z", "Z"])]) } else { none() };
        }
        "tmpfs" => {
            opts["size"] = rare(rng, "5kb");
            opts["mode"] = rare(rng, "511");
        }
        _ => {}
    }
    let has_opts = ["volume", "bind", "tmpfs"].contains(&kind) && rng.chance(2);
    (
        "volume.shorten".into(),
        json!({ "type": kind, "source": source, "target": some_path(rng, &["/t", "/", "/u", "/v:w"]),
            "read_only": rng.chance(2), "consistency": rare(rng, "cached"), "ext": rare(rng, "x-m"),
            "opts": if has_opts { json!([opts]) } else { none() } }),
    )
}

/// Documents that use and define resources; biased towards nearly everything being defined.
fn validation(rng: &mut Rng) -> (String, Value) {
    const NAMES: &[&str] = &["a", "b", "c", "data", "default", "a.b", "A"];
    let forms = |kind: &str| -> &'static [&'static str] {
        match kind {
            "network" => &["list", "map", "map-set"],
            "volume" => &["short", "short-ro", "short-z", "long", "long-set", "long-ext", "bind", "bind-long", "cluster", "anonymous", "anonymous-long"],
            "config" => &["short", "long", "long-set"],
            _ => &["short", "long", "long-set", "build", "build-long"],
        }
    };
    let mut used: Vec<(String, String)> = Vec::new();
    let mut names: Vec<&str> = vec!["web", "db", "app", "cache", "a", "Z.9"];
    let mut services = Vec::new();
    for _ in 0..rng.below(5) {
        let name = names.remove(rng.below(names.len()));
        let network_list = rng.chance(2);
        let mut uses: Vec<Value> = Vec::new();
        for _ in 0..rng.below(7) {
            let kind = rng.pick(&["network", "volume", "volume", "config", "secret"]);
            let form = rng.pick(forms(kind));
            let name = rng.pick(NAMES);
            if kind == "network" {
                let taken = uses.iter().any(|u| u["kind"] == "network" && u["name"] == name);
                if taken || (form == "list") != network_list {
                    continue;
                }
            }
            if !form.starts_with("build") && !form.starts_with("bind") {
                used.push((kind.to_owned(), name.to_owned()));
            }
            uses.push(json!({ "kind": kind, "form": form, "name": name }));
        }
        services.push(json!({ "name": name, "uses": uses }));
    }
    used.sort();
    used.dedup();
    let gap = 1 + rng.below(8);
    let mut defs: Vec<Value> = Vec::new();
    for (kind, name) in used {
        if !rng.chance(gap) {
            let at = rng.below(defs.len() + 1);
            defs.insert(at, json!({ "kind": kind, "form": rng.pick(&["plain", "external", "set"]), "name": name }));
        }
    }
    ("compose.validate".into(), json!({ "services": services, "defs": defs }))
}

/// An integer of any magnitude, often close to a power of two.
fn magnitude(rng: &mut Rng) -> u64 {
    let n = rng.next() >> rng.below(64);
    match rng.below(4) {
        0 => (1_u64 << rng.below(64)).wrapping_sub(1),
        1 => 1_u64 << rng.below(64),
        2 => (1_u64 << rng.below(64)).wrapping_add(rng.below(5) as u64),
        _ => n,
    }
}

/// A decimal of at most 15 digits.
fn decimal(rng: &mut Rng) -> String {
    let whole = word(rng, "0123456789", 0, 7);
    let part = word(rng, "0123456789", 0, 7);
    let mut s = if whole.is_empty() && part.is_empty() { "7".to_owned() } else { format!("{whole}.{part}") };
    if rng.chance(2) {
        s += &format!("{}{}{}", rng.pick(&["e", "E"]), rng.pick(&["", "+", "-"]), rng.below(290));
    }
    s
}

fn values(rng: &mut Rng) -> (String, Value) {
    let sign = rng.pick(&["", "", "-", "+"]);
    let number = match rng.below(3) {
        0 => decimal(rng),
        1 => magnitude(rng).to_string(),
        _ => format!("{}{}", ["", "0", "00"][rng.below(3)], magnitude(rng)),
    };
    match rng.below(5) {
        0 => {
            let s = format!("{sign}{number}");
            ("value.parse".into(), json!({ "s": mutate(rng, &s) }))
        }
        1 => {
            let s = format!("{sign}{number}");
            (["value.parse", "value.text"][rng.below(2)].into(), json!({ "s": s }))
        }
        2 => {
            let n = magnitude(rng);
            match rng.below(2) {
                0 => ("value.of".into(), json!({ "t": "u64", "v": n.to_string() })),
                _ => ("value.of".into(), json!({ "t": "i64", "v": (n as i64).to_string() })),
            }
        }
        3 => {
            let n = magnitude(rng);
            let v = if rng.chance(2) { n.to_string() } else { (n as i64).to_string() };
            ("value.read".into(), json!({ "t": "i", "v": v }))
        }
        _ => {
            let sign = rng.pick(&["", "-"]);
            let v = format!("{sign}{}", decimal(rng));
            match rng.below(2) {
                0 => ("value.of".into(), json!({ "t": "f64", "v": v })),
                _ => ("value.read".into(), json!({ "t": "f", "v": v })),
            }
        }
    }
}

/// A text of some language, given to all of them.
fn anything(rng: &mut Rng) -> (String, Value) {
    let areas = ["image-parse", "keys", "ports", "durations", "sizes", "cpus", "users", "devices", "platforms", "refs", "volumes", "values", "image-edits"];
    loop {
        let (_, input) = generate(rng.pick(&areas), rng);
        if let Some(s) = input["s"].as_str() {
            return ("total.text".into(), json!({ "s": mutate(rng, s) }));
        }
    }
}

const DOCUMENTS: &[&str] = &[include_str!("documents/plain.yaml"), include_str!("documents/rich.yaml"), include_str!("documents/odd.yaml")];

/// A document whose text has been mangled: lines repeated, moved, lost, or cut, and characters changed.
fn mangled(rng: &mut Rng) -> (String, Value) {
    let mut lines: Vec<String> = rng.pick(DOCUMENTS).lines().map(str::to_owned).collect();
    for _ in 0..1 + rng.below(4) {
        let (at, to) = (rng.below(lines.len()), rng.below(lines.len()));
        match rng.below(7) {
            0 => {
                lines.remove(at);
            }
            1 => lines.insert(to, lines[at].clone()),
            2 => lines.swap(at, to),
            3 => {
                let cut = lines[at].chars().take(rng.below(lines[at].chars().count() + 1)).collect();
                lines[at] = cut;
            }
            4 => lines[at].insert_str(0, rng.pick(&["  ", "- ", "\t", "? ", "*a ", "<<: "])),
            5 => {
                let indented = lines[at].trim_start().to_owned();
                lines[at] = indented;
            }
            _ => lines[at] = mutate(rng, &lines[at]),
        }
        if lines.is_empty() {
            lines.push(String::new());
        }
    }
    ("total.yaml".into(), json!({ "s": lines.join("\n") }))
}

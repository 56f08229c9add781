//! System under test: hosts Octane apps described in JSON, records what handlers observe.
//! Uses only the public API of octane / octane_http. Controlled by JSON lines on stdin.
mod plat;

use octane::config::{Config, OctaneConfig, Ssl};
use octane::prelude::*;
use octane::request::MatchedRequest;
use octane::responder::Response;
use octane::router::Closure;
use octane::StatusCode;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

static PANICS: AtomicU64 = AtomicU64::new(0);
static RUNS: AtomicU64 = AtomicU64::new(0);
static EVENTS: Mutex<Vec<Value>> = Mutex::new(Vec::new());

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}
fn adler(b: &[u8]) -> u32 {
    let (mut x, mut y) = (1u32, 0u32);
    for c in b {
        x = (x + *c as u32) % 65521;
        y = (y + x) % 65521;
    }
    y << 16 | x
}

fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn pattern(n: usize, seed: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    const PERIOD: usize = 1000003;
    for _ in 0..n.min(PERIOD) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.push((x >> 24) as u8);
    }
    while v.len() < n {
        let k = (n - v.len()).min(PERIOD);
        v.extend_from_within(..k);
    }
    v
}

macro_rules! status_table {
    ($($n:ident),* $(,)?) => {
        fn status_by_name(name: &str) -> StatusCode {
            match name { $( stringify!($n) => StatusCode::$n, )* _ => panic!("unknown status {}", name) }
        }
        fn all_status() -> Vec<(&'static str, StatusCode)> { vec![ $( (stringify!($n), StatusCode::$n) ),* ] }
    };
}
status_table!(
    Continue, SwitchingProtocol, Processing, EarlyHints, Ok, Created, Accepted,
    NonauthoritativeInformation, NoContent, ResetContent, PartialContent, Multistatus,
    AlreadyReported, ImUsed, MultipleChoice, MovedPermanently, Found, SeeOther, NotModified,
    TemporaryRedirect, PermanentRedirect, BadRequest, Unauthorized, PaymentRequired, Forbidden,
    NotFound, MethodNotAllowed, NotAcceptable, ProxyAuthenticationRequired, RequestTimeout,
    Conflict, Gone, LengthRequired, PreconditionFailed, PayloadTooLarge, UriTooLong,
    UnsupportedMediaType, RangeNotSatisfiable, ExpectationFailed, ImATeapot, MisdirectedRequest,
    UnprocessableEntity, Locked, FailedDependency, TooEarly, UpgradeRequired,
    PreconditionRequired, TooManyRequests, RequestHeaderFieldsTooLarge,
    UnavailableForLegalReasons, InternalServerError, NotImplemented, BadGateway,
    ServiceUnavailable, GatewayTimeout, HttpVersionNotSupported, VariantAlsoNegotiates,
    InsufficientStorage, LoopDetected, NotExtended, NetworkAuthenticationRequired,
);

fn version_by_name(v: &str) -> octane_http::HttpVersion {
    use octane_http::HttpVersion::*;
    match v {
        "1.1" => Http11,
        "1.0" => Http10,
        "2.0" => Http02,
        "0.9" => Http09,
        _ => HttpInvalid,
    }
}

/// One response action of a handler.
enum Act {
    Send(Vec<u8>),
    SendSize(usize, u64),
    EchoReq,
    EchoBody,
    EchoTok,
    Digest,
    Set(String, String),
    Status(StatusCode),
    Redirect(String),
    #[cfg(feature = "cookies")]
    Cookie(cookie::Cookie<'static>),
    Charset(String),
    WithType(&'static str),
    Attachment,
    AttachmentFn(&'static str),
    Version(String),
    SendFile(String),
    SendFileHdr,
    Unlink(String),
    Append(String, usize),
    Panic,
    PanicIfHdr,
    Sleep(u64),
    SleepHdr,
    Spin(u64),
    Get(&'static str),
    #[cfg(feature = "lines")]
    Line,
    #[cfg(feature = "paths")]
    Paths(Vec<String>),
    Snap,
    DefaultHeaders,
}

fn parse_act(a: &Value) -> Act {
    let s = |i: usize| a[i].as_str().unwrap().to_owned();
    let n = |i: usize| a[i].as_u64().unwrap();
    match a[0].as_str().unwrap() {
        "send" => Act::Send(unhex(&s(1))),
        "send_str" => Act::Send(s(1).into_bytes()),
        "send_size" => Act::SendSize(n(1) as usize, n(2)),
        "echo_req" => Act::EchoReq,
        "echo_body" => Act::EchoBody,
        "echo_tok" => Act::EchoTok,
        "digest" => Act::Digest,
        "set" => Act::Set(s(1), s(2)),
        "status" => Act::Status(status_by_name(&s(1))),
        "status_other" => Act::Status(StatusCode::Other(n(1) as i32, leak(&s(2)))),
        "redirect" => Act::Redirect(s(1)),
        #[cfg(feature = "cookies")]
        "cookie" => Act::Cookie(mk_cookie(&a[1])),
        "charset" => Act::Charset(s(1)),
        "with_type" => Act::WithType(leak(&s(1))),
        "attachment" => Act::Attachment,
        "attachment_fn" => Act::AttachmentFn(leak(&s(1))),
        "http_version" => Act::Version(s(1)),
        "send_file" => Act::SendFile(s(1)),
        "send_file_hdr" => Act::SendFileHdr,
        "unlink" => Act::Unlink(s(1)),
        "append" => Act::Append(s(1), a[2].as_u64().unwrap() as usize),
        "panic" => Act::Panic,
        "panic_if_hdr" => Act::PanicIfHdr,
        "sleep" => Act::Sleep(n(1)),
        "sleep_hdr" => Act::SleepHdr,
        "spin" => Act::Spin(n(1)),
        "get" => Act::Get(leak(&s(1))),
        #[cfg(feature = "lines")]
        "line" => Act::Line,
        #[cfg(feature = "paths")]
        "paths" => Act::Paths(a[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect()),
        "snap" => Act::Snap,
        "default_headers" => Act::DefaultHeaders,
        x => panic!("unknown act {}", x),
    }
}

#[cfg(feature = "cookies")]
fn mk_cookie(c: &Value) -> cookie::Cookie<'static> {
    let name = leak(c["name"].as_str().unwrap());
    let value = leak(c["value"].as_str().unwrap());
    if c.get("plain").is_some() {
        return cookie::Cookie::new(name, value);
    }
    let mut b = octane::cookie::Cookie::build(name, value);
    if let Some(p) = c["path"].as_str() {
        b = b.path(p.to_owned());
    }
    if let Some(p) = c["domain"].as_str() {
        b = b.domain(p.to_owned());
    }
    if let Some(p) = c["max_age"].as_i64() {
        b = b.max_age(time::Duration::seconds(p));
    }
    if let Some(p) = c["expires"].as_i64() {
        b = b.expires(time::OffsetDateTime::from_unix_timestamp(p));
    }
    if let Some(p) = c["secure"].as_bool() {
        b = b.secure(p);
    }
    if let Some(p) = c["http_only"].as_bool() {
        b = b.http_only(p);
    }
    if let Some(p) = c["same_site"].as_str() {
        b = b.same_site(match p {
            "Strict" => cookie::SameSite::Strict,
            "Lax" => cookie::SameSite::Lax,
            _ => cookie::SameSite::None,
        });
    }
    b.finish()
}

fn tok_of(req: &MatchedRequest) -> String {
    req.headers.get("x-tok").cloned().unwrap_or_default()
}

/// Everything a handler can observe about its request.
fn observe(req: &MatchedRequest) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("method".into(), json!(format!("{:?}", req.request_line.method)));
    m.insert("version".into(), json!(format!("{:?}", req.request_line.version)));
    m.insert("headers".into(), json!(req.headers.parsed));
    #[cfg(feature = "raw_headers")]
    m.insert(
        "raw".into(),
        json!(req.headers.raw.iter().map(|h| vec![h.name(), h.value()]).collect::<Vec<_>>()),
    );
    if req.body.len() <= 4096 {
        m.insert("body".into(), json!(hex(req.body)));
    }
    m.insert("blen".into(), json!(req.body.len()));
    m.insert("badler".into(), json!(adler(req.body)));
    m.insert("bfnv".into(), json!(format!("{:016x}", fnv(req.body))));
    #[cfg(feature = "cookies")]
    m.insert(
        "cookies".into(),
        json!(req.cookies.iter().map(|c| vec![c.name().to_owned(), c.value().to_owned()]).collect::<Vec<_>>()),
    );
    #[cfg(feature = "url_variables")]
    m.insert("vars".into(), json!(req.vars));
    m.insert("query".into(), json!(req.get_query()));
    #[cfg(feature = "extended_queries")]
    {
        let mut q = Map::new();
        for (k, v) in req.get_extended_query() {
            let jv = if let Some(s) = v.get_str() {
                json!({ "s": s })
            } else if let Some(a) = v.get_arr() {
                json!({ "a": a })
            } else {
                json!({ "o": v.get_obj() })
            };
            q.insert(k, jv);
        }
        m.insert("equery".into(), Value::Object(q));
    }
    m
}

struct Handler {
    rid: u64,
    stop: bool,
    obs: u8,
    acts: Vec<Act>,
}

fn mk_handler(h: &Value) -> Closure {
    let h = Handler {
        rid: h["rid"].as_u64().unwrap(),
        stop: h["flow"].as_str() == Some("stop"),
        obs: match h["obs"].as_str() {
            Some("full") => 2,
            Some("none") => 0,
            _ => 1,
        },
        acts: h["acts"].as_array().map(|a| a.iter().map(parse_act).collect()).unwrap_or_default(),
    };
    Box::new(move |req, res| run_handler(&h, req, res))
}

fn run_handler(h: &Handler, req: &MatchedRequest, res: &mut Response) -> Flow {
    RUNS.fetch_add(1, Ordering::SeqCst);
    if h.obs > 0 {
        let mut e = if h.obs == 2 { observe(req) } else { Map::new() };
        e.insert("tok".into(), json!(tok_of(req)));
        e.insert("rid".into(), json!(h.rid));
        #[cfg(feature = "url_variables")]
        e.insert("vars".into(), json!(req.vars));
        EVENTS.lock().unwrap().push(Value::Object(e));
    }
    for a in &h.acts {
        match a {
            Act::Send(b) => res.send(b),
            Act::SendSize(n, s) => res.send(pattern(*n, *s)),
            Act::EchoReq => res.send(Value::Object(observe(req)).to_string()),
            Act::EchoBody => res.send(req.body),
            Act::EchoTok => res.send(tok_of(req)),
            Act::Digest => {
                // several small steps derived from the request only
                let t = tok_of(req);
                res.set("X-Tok", &t);
                res.set("X-Len", &req.body.len().to_string());
                let n = req.headers.get("x-out").and_then(|v| v.parse().ok()).unwrap_or(0usize);
                let mut out = format!("{}|{}|{:016x}|", t, req.body.len(), fnv(req.body)).into_bytes();
                out.extend(pattern(n, fnv(t.as_bytes())));
                res.send(out)
            }
            Act::Set(k, v) => {
                res.set(k, v);
            }
            Act::Status(c) => {
                res.status(*c);
            }
            Act::Redirect(l) => {
                res.redirect(l);
            }
            #[cfg(feature = "cookies")]
            Act::Cookie(c) => {
                res.cookie(octane::cookie::Cookie::from(c.clone()));
            }
            Act::Charset(c) => {
                res.charset(c);
            }
            Act::WithType(t) => {
                res.with_type(t);
            }
            Act::Attachment => {
                res.attachment();
            }
            Act::AttachmentFn(f) => {
                res.attachment_with_filename(f);
            }
            Act::Version(v) => {
                res.http_version(version_by_name(v));
            }
            Act::SendFile(p) => {
                let r = res.send_file(p).map(|_| ()).map_err(|e| e.to_string());
                note(req, h.rid, "file", json!(match r { Ok(()) => "ok".to_owned(), Err(e) => format!("err:{}", e) }));
            }
            Act::SendFileHdr => {
                let p = req.headers.get("x-file").cloned().unwrap_or_default();
                let r = res.send_file(&p).map(|_| ()).map_err(|e| e.to_string());
                if h.obs > 0 {
                    note(req, h.rid, "file", json!(match r { Ok(()) => "ok".to_owned(), Err(e) => format!("err:{}", e) }));
                }
            }
            Act::Append(p, n) => {
                use std::io::Write;
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(p) {
                    let _ = f.write_all(&vec![b'+'; *n]);
                }
            }
            Act::Unlink(p) => {
                let _ = std::fs::remove_file(p);
            }
            Act::Panic => panic!("handler panic (workload)"),
            Act::PanicIfHdr => {
                if req.headers.get("x-panic").is_some() {
                    panic!("handler panic (workload)")
                }
            }
            Act::Sleep(ms) => std::thread::sleep(Duration::from_millis(*ms)),
            Act::SleepHdr => {
                if let Some(us) = req.headers.get("x-sleep-us").and_then(|v| v.parse().ok()) {
                    std::thread::sleep(Duration::from_micros(us))
                }
            }
            Act::Spin(n) => {
                for _ in 0..*n {
                    std::hint::spin_loop()
                }
            }
            Act::Get(k) => {
                let v = res.get(k).cloned();
                note(req, h.rid, "get", json!([k, v]));
            }
            #[cfg(feature = "paths")]
            Act::Paths(texts) => {
                let own = &req.request_line.path;
                let parts = |p: std::path::PathBuf| -> Vec<String> {
                    // what the operating system will make of it
                    p.components().map(|c| match c {
                        std::path::Component::Normal(s) => s.to_str().unwrap().to_owned(),
                        x => format!("!{:?}", x),
                    }).collect()
                };
                note(req, h.rid, "own", json!({
                    "chunks": own.chunks(), "shown": own.to_string(), "std": parts(own.to_std_pathbuf()),
                    "into": parts(own.clone().into()), "same": *own == own.clone(),
                }));
                for t in texts {
                    let mut other = own.clone();
                    let e = match t.parse() {
                        Err(_) => json!({ "text": t, "err": true }),
                        Ok(p) => {
                            other = p;
                            json!({
                                "text": t, "chunks": other.chunks(), "std": parts(other.to_std_pathbuf()), "eq": other == *own,
                                "cat": own.concat(&other).chunks(), "cato": own.concat_owned(other.clone()).chunks(),
                                "tac": other.concat(own).chunks(), "sub": own.subtract(&other).map(|p| p.chunks().clone()),
                                "bus": other.subtract(own).map(|p| p.chunks().clone()),
                                "starts": own.check_starts_with(&other), "stratec": other.check_starts_with(own),
                                "matches": other.check_matches(own),
                            })
                        }
                    };
                    let _ = &other;
                    note(req, h.rid, "other", e);
                }
            }
            #[cfg(feature = "lines")]
            Act::Line => {
                let l = &req.request_line;
                let e = json!([format!("{:?}", l.method), format!("{:?}", l.version), l.path.chunks, l.query]);
                note(req, h.rid, "line", e);
            }
            Act::Snap => {
                let (code, text) = res.status_code.fetch();
                #[allow(unused_mut)]
                let mut e = json!({
                    "code": code, "reason": text, "version": res.http_version, "length": res.content_len,
                    "headers": res.headers, "charset": res.charset, "sent": res.headers_sent(),
                });
                #[cfg(feature = "cookies")]
                {
                    e["cookies"] = json!(res.cookies.iter().map(|c| vec![c.name().to_owned(), c.value().to_owned()]).collect::<Vec<_>>());
                }
                note(req, h.rid, "snap", e);
            }
            Act::DefaultHeaders => {
                res.default_headers();
            }
        }
    }
    if h.stop {
        Flow::Stop
    } else {
        Flow::Next
    }
}

fn note(req: &MatchedRequest, rid: u64, key: &str, v: Value) {
    let mut e = Map::new();
    e.insert("tok".into(), json!(tok_of(req)));
    e.insert("note".into(), json!(rid));
    e.insert(key.into(), v);
    EVENTS.lock().unwrap().push(Value::Object(e));
}

fn register<R: Route>(r: &mut R, op: &Value) -> bool {
    let c = mk_handler(&op["h"]);
    let p = op["path"].as_str().unwrap_or("");
    match op["method"].as_str().unwrap() {
        "get" => r.get(p, c),
        "post" => r.post(p, c),
        "put" => r.put(p, c),
        "delete" => r.delete(p, c),
        "head" => r.head(p, c),
        "patch" => r.patch(p, c),
        "all" => r.add_route(p, c),
        "use" => r.add(c),
        x => panic!("method {}", x),
    }
    .is_ok()
}

#[derive(Default)]
struct AppState {
    callbacks: u32,
    probe: Option<bool>,
    result: Option<Result<(), String>>,
}
struct Running {
    state: Arc<Mutex<AppState>>,
    handle: tokio::task::JoinHandle<()>,
}

fn build_app(ops: &[Value]) -> (Octane, Vec<bool>) {
    let mut app = Octane::new();
    let mut routers: HashMap<u64, Router> = HashMap::new();
    let mut confs: HashMap<u64, OctaneConfig> = HashMap::new();
    let mut results = Vec::new();
    for op in ops {
        let ok = match op["op"].as_str().unwrap() {
            "route" => match op["on"].as_u64() {
                None => register(&mut app, op),
                Some(i) => register(routers.entry(i).or_insert_with(Router::new), op),
            },
            "mount" => {
                let r = routers.remove(&op["router"].as_u64().unwrap()).unwrap_or_else(Router::new);
                app.with_router(r);
                true
            }
            "ssl" => {
                app.ssl(op["port"].as_u64().unwrap() as u16)
                    .key(op["key"].as_str().unwrap())
                    .cert(op["cert"].as_str().unwrap());
                true
            }
            "config" => {
                config_op(&mut app, &mut confs, &op["c"]);
                true
            }
            x => panic!("op {}", x),
        };
        results.push(ok);
    }
    (app, results)
}

fn snapshot(c: &OctaneConfig) -> Value {
    json!({
        "keep_alive": c.keep_alive.map(|d| d.as_nanos().to_string()),
        "key": c.ssl.key.to_str(), "cert": c.ssl.cert.to_str(), "port": c.ssl.port,
    })
}

fn apply_config<C: Config>(c: &mut C, op: &Value) {
    match op["op"].as_str().unwrap() {
        "keepalive" => c.set_keepalive(Duration::new(op["s"].as_u64().unwrap(), op["ns"].as_u64().unwrap() as u32)),
        "with_ssl" => {
            let mut s = Ssl::new();
            if let Some(k) = op["key"].as_str() {
                s.key(k);
            }
            if let Some(k) = op["cert"].as_str() {
                s.cert(k);
            }
            if let Some(p) = op["sport"].as_u64() {
                s.port = p as u16;
            }
            c.with_ssl_config(s)
        }
        "ssl" => {
            let s = c.ssl(op["port"].as_u64().unwrap() as u16);
            if op["rev"] == true {
                if let Some(k) = op["cert"].as_str() {
                    s.cert(k);
                }
            }
            if let Some(k) = op["key"].as_str() {
                s.key(k);
            }
            if op["rev"] != true {
                if let Some(k) = op["cert"].as_str() {
                    s.cert(k);
                }
            }
        }
        x => panic!("config op {}", x),
    }
}

fn field_op(c: &mut OctaneConfig, op: &Value) {
    if op["ka"] == "none" {
        c.keep_alive = None;
    } else if let Some(s) = op["ka"].as_u64() {
        c.keep_alive = Some(Duration::from_secs(s));
    }
    if op["whole"] == true {
        c.ssl = Ssl::new();
    }
    if let Some(k) = op["key"].as_str() {
        c.ssl.key = k.into();
    }
    if let Some(k) = op["cert"].as_str() {
        c.ssl.cert = k.into();
    }
    if let Some(p) = op["port"].as_u64() {
        c.ssl.port = p as u16;
    }
}

fn config_op(app: &mut Octane, confs: &mut HashMap<u64, OctaneConfig>, op: &Value) {
    match op["op"].as_str().unwrap() {
        "apply" => {
            let c = confs.remove(&op["conf"].as_u64().unwrap()).unwrap_or_else(OctaneConfig::new);
            app.with_config(c);
        }
        "threads" => {
            confs.entry(op["on"].as_u64().unwrap()).or_insert_with(OctaneConfig::new).worker_threads(op["n"].as_u64().unwrap() as usize);
        }
        "field" => match op["on"].as_u64() {
            None => field_op(&mut app.settings, op),
            Some(i) => field_op(confs.entry(i).or_insert_with(OctaneConfig::new), op),
        },
        _ => match op["on"].as_u64() {
            None => apply_config(app, op),
            Some(i) => apply_config(confs.entry(i).or_insert_with(OctaneConfig::new), op),
        },
    }
}

fn config_ops(ops: &[Value]) -> Value {
    let mut app = Octane::new();
    let mut confs: HashMap<u64, OctaneConfig> = HashMap::new();
    let mut out = Vec::new();
    let mut snap = |app: &Octane, confs: &HashMap<u64, OctaneConfig>| {
        let mut m = Map::new();
        m.insert("app".into(), snapshot(&app.settings));
        for (k, v) in confs {
            m.insert(k.to_string(), snapshot(v));
        }
        out.push(Value::Object(m));
    };
    snap(&app, &confs);
    for op in ops {
        match op["op"].as_str().unwrap() {
            "route" => {
                register(&mut app, op);
            }
            "mount" => app.with_router(Router::new()),
            _ => config_op(&mut app, &mut confs, op),
        }
        snap(&app, &confs);
    }
    Value::Array(out)
}

fn main() {
    let mut workers = 4;
    let mut nofile = 0u64;
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--workers" => workers = args[i + 1].parse().unwrap(),
            "--nofile" => nofile = args[i + 1].parse().unwrap(),
            x => panic!("arg {}", x),
        }
        i += 2;
    }
    if nofile > 0 {
        plat::limit_nofile(nofile);
    }
    std::panic::set_hook(Box::new(|_| {
        PANICS.fetch_add(1, Ordering::SeqCst);
    }));
    let rt = tokio::runtime::Builder::new_multi_thread()
        .enable_io()
        .worker_threads(workers)
        .thread_name("sut")
        .build()
        .unwrap();
    let mut apps: HashMap<u64, Running> = HashMap::new();
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(plat::take_stdout());
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let c: Value = serde_json::from_str(&line).expect("command");
        let reply = match c["cmd"].as_str().unwrap() {
            "ping" => json!({"pong": 1}),
            "start" => {
                let (app, results) = build_app(c["ops"].as_array().unwrap());
                let state = Arc::new(Mutex::new(AppState::default()));
                let (s1, s2) = (state.clone(), state.clone());
                let port = c["port"].as_u64().unwrap() as u16;
                let probe = c["probe"].as_str().map(|h| (h.to_owned(), port));
                let handle = rt.spawn(async move {
                    let r = app
                        .listen(port, move || {
                            // may a client connect by now?
                            let up = probe.map(|a| std::net::TcpStream::connect((a.0.as_str(), a.1)).is_ok());
                            let mut s = s1.lock().unwrap();
                            s.probe = up;
                            s.callbacks += 1
                        })
                        .await
                        .map_err(|e| e.to_string());
                    s2.lock().unwrap().result = Some(r);
                });
                let wait = c["wait_ms"].as_u64().unwrap_or(5000);
                let t0 = std::time::Instant::now();
                let mut up = false;
                while !up && t0.elapsed().as_millis() < wait as u128 {
                    std::thread::sleep(Duration::from_micros(100));
                    let s = state.lock().unwrap();
                    up = s.callbacks > 0 || s.result.is_some();
                }
                let (cb, res) = { let s = state.lock().unwrap(); (s.callbacks, s.result.is_some()) };
                apps.insert(c["id"].as_u64().unwrap(), Running { state, handle });
                json!({ "results": results, "callbacks": cb, "ended": res })
            }
            "app" => {
                let a = &apps[&c["id"].as_u64().unwrap()];
                let s = a.state.lock().unwrap();
                json!({"callbacks": s.callbacks, "probe": s.probe, "result": s.result.as_ref().map(|r| match r { Ok(()) => "ok".to_owned(), Err(e) => format!("err:{}", e) })})
            }
            "stop" => {
                if let Some(a) = apps.remove(&c["id"].as_u64().unwrap()) {
                    a.handle.abort();
                    let panicked = rt.block_on(a.handle).map_err(|e| e.is_panic()) == Err(true);
                    json!({ "panicked": panicked })
                } else {
                    json!({"none": 1})
                }
            }
            "dump" => {
                let ev = std::mem::take(&mut *EVENTS.lock().unwrap());
                json!({ "events": ev })
            }
            "stat" => json!({
                "panics": PANICS.load(Ordering::SeqCst), "runs": RUNS.load(Ordering::SeqCst),
                "live_bytes": plat::live_bytes(), "live_allocs": plat::live_allocs(),
            }),
            "clock" => {
                plat::set_clock(c["t"].as_i64());
                json!({"ok": 1})
            }
            #[cfg(feature = "cookies")]
            "dates" => {
                let mut v = Vec::new();
                for t in c["ts"].as_array().unwrap() {
                    plat::set_clock(t.as_i64());
                    let mut r = Response::default();
                    r.default_headers();
                    v.push(json!(r.headers.get("Date")));
                }
                plat::set_clock(None);
                json!({ "dates": v })
            }
            "status" => {
                let v: Vec<Value> = all_status()
                    .into_iter()
                    .map(|(n, s)| {
                        let i: i32 = s.into();
                        json!([n, s.fetch().0, s.fetch().1, i, s.to_string(), format!("{:?}", s)])
                    })
                    .collect();
                json!({ "status": v })
            }
            "status_other" => {
                let s = StatusCode::Other(c["n"].as_i64().unwrap() as i32, leak(c["s"].as_str().unwrap()));
                let i: i32 = s.into();
                json!({"v": [s.fetch().0, s.fetch().1, i, s.to_string()]})
            }
            "config" => json!({ "snaps": config_ops(c["ops"].as_array().unwrap()) }),
            "exit" => break,
            x => panic!("cmd {}", x),
        };
        writeln!(out, "{}", reply).unwrap();
        out.flush().unwrap();
    }
    std::process::exit(0);
}

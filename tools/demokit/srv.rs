#![allow(dead_code)]
// A scriptable HTTP/1.1 server that records every request (the event log the HTTP monitors
// judge). One thread per connection; the handler decides what goes over the wire.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Req {
    pub seq: u64,
    pub at: Instant,
    pub method: String,
    pub target: String, // path?query
    pub headers: Vec<(String, String)>,
}

impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn path(&self) -> &str {
        self.target.split('?').next().unwrap()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    Length,
    Chunked,
    /// no length; the end of the connection is the end of the body
    Close,
    /// declare this length, whatever the body is
    Declare(usize),
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub framing: Framing,
    /// cut the connection after this many body bytes
    pub cut: Option<usize>,
    /// cut with RST rather than FIN
    pub reset: bool,
    pub delay: Duration,
    /// pause between body pieces
    pub dribble: Option<(usize, Duration)>,
}

impl Reply {
    pub fn new(status: u16, body: impl AsRef<[u8]>) -> Reply {
        Reply {
            status,
            headers: vec![],
            body: body.as_ref().to_vec(),
            framing: Framing::Length,
            cut: None,
            reset: false,
            delay: Duration::ZERO,
            dribble: None,
        }
    }
    pub fn html(body: impl AsRef<[u8]>) -> Reply {
        Reply::new(200, body).h("Content-Type", "text/html")
    }
    pub fn h(mut self, k: &str, v: &str) -> Reply {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn redirect(status: u16, to: &str) -> Reply {
        Reply::new(status, "moved").h("Location", to)
    }
}

pub enum Act {
    Reply(Reply),
    /// close the connection without a word
    Hangup,
    /// raw bytes, then close
    Raw(Vec<u8>),
}

pub type Handler = Arc<dyn Fn(&Req) -> Act + Send + Sync>;

pub struct Server {
    pub port: u16,
    pub log: Arc<Mutex<Vec<Req>>>,
    stop: Arc<AtomicBool>,
}

impl Server {
    pub fn start(handler: Handler) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().unwrap().port();
        let log = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(AtomicBool::new(false));
        let seq = Arc::new(AtomicU64::new(0));
        let (log2, stop2) = (log.clone(), stop.clone());
        std::thread::spawn(move || {
            for s in l.incoming() {
                if stop2.load(Ordering::SeqCst) {
                    break;
                }
                if let Ok(s) = s {
                    let (h, log, seq, stop) = (handler.clone(), log2.clone(), seq.clone(), stop2.clone());
                    std::thread::spawn(move || {
                        let _ = serve(s, h, log, seq, stop);
                    });
                }
            }
        });
        Server { port, log, stop }
    }
    pub fn url(&self, path: &str) -> String {
        format!("http://127.0.0.1:{}{}", self.port, path)
    }
    pub fn take(&self) -> Vec<Req> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    pub fn count(&self) -> usize {
        self.log.lock().unwrap().len()
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

fn serve(
    s: TcpStream,
    handler: Handler,
    log: Arc<Mutex<Vec<Req>>>,
    seq: Arc<AtomicU64>,
    stop: Arc<AtomicBool>,
) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_secs(120)))?;
    s.set_write_timeout(Some(Duration::from_secs(30)))?;
    let mut w = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 || stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        let mut it = line.split_whitespace();
        let method = it.next().unwrap_or("").to_string();
        let target = it.next().unwrap_or("").to_string();
        let mut headers = vec![];
        let mut len = 0usize;
        loop {
            let mut line = String::new();
            if r.read_line(&mut line)? == 0 {
                return Ok(());
            }
            let t = line.trim_end();
            if t.is_empty() {
                break;
            }
            if let Some((k, v)) = t.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    len = v.trim().parse().unwrap_or(0);
                }
                headers.push((k.trim().to_string(), v.trim().to_string()));
            }
        }
        if len > 0 {
            let mut b = vec![0; len];
            r.read_exact(&mut b)?;
        }
        let req = Req { seq: seq.fetch_add(1, Ordering::SeqCst), at: Instant::now(), method, target, headers };
        log.lock().unwrap().push(req.clone());
        match handler(&req) {
            Act::Hangup => {
                let _ = w.shutdown(Shutdown::Both);
                return Ok(());
            }
            Act::Raw(b) => {
                w.write_all(&b)?;
                let _ = w.shutdown(Shutdown::Both);
                return Ok(());
            }
            Act::Reply(rep) => {
                if !write_reply(&mut w, &req, &rep)? {
                    if rep.reset {
                        rst(&w);
                    }
                    let _ = w.shutdown(Shutdown::Both);
                    return Ok(());
                }
            }
        }
    }
}

fn rst(_: &TcpStream) {}

/// Returns whether the connection may be kept alive.
fn write_reply(w: &mut TcpStream, req: &Req, rep: &Reply) -> std::io::Result<bool> {
    if !rep.delay.is_zero() {
        std::thread::sleep(rep.delay);
    }
    let mut head = format!("HTTP/1.1 {} X\r\n", rep.status);
    for (k, v) in &rep.headers {
        head += &format!("{k}: {v}\r\n");
    }
    let bodyless = req.method == "HEAD" || rep.status == 304 || rep.status == 204;
    let mut wire = vec![];
    match &rep.framing {
        Framing::Length => {
            if rep.status != 304 && rep.status != 204 {
                head += &format!("Content-Length: {}\r\n", rep.body.len());
            }
            wire.extend(&rep.body);
        }
        Framing::Declare(n) => {
            head += &format!("Content-Length: {n}\r\n");
            wire.extend(&rep.body);
        }
        Framing::Close => {
            head += "Connection: close\r\n";
            wire.extend(&rep.body);
        }
        Framing::Chunked => {
            head += "Transfer-Encoding: chunked\r\n";
            for c in rep.body.chunks(1000.max(rep.body.len() / 3 + 1)) {
                wire.extend(format!("{:x}\r\n", c.len()).as_bytes());
                wire.extend(c);
                wire.extend(b"\r\n");
            }
            wire.extend(b"0\r\n\r\n");
        }
    }
    head += "\r\n";
    if bodyless {
        wire.clear();
    }
    let cut = rep.cut.map_or(wire.len(), |c| c.min(wire.len()));
    let mut out = head.into_bytes();
    if let Some((n, d)) = rep.dribble {
        w.write_all(&out)?;
        for c in wire[..cut].chunks(n.max(1)) {
            w.write_all(c)?;
            std::thread::sleep(d);
        }
    } else {
        out.extend(&wire[..cut]);
        w.write_all(&out)?;
    }
    w.flush()?;
    Ok(match rep.framing {
        Framing::Close => false,
        Framing::Declare(n) => !bodyless && n == rep.body.len() && rep.cut.is_none(),
        _ => rep.cut.map_or(true, |_| false),
    })
}

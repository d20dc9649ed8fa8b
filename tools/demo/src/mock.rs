//! A scripted server speaking just enough of the native protocol.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub enum Act {
    Send(Vec<u8>),
    Sleep(u64),
    Close,
}
pub use Act::*;

#[derive(Clone)]
pub struct Log(pub Arc<Mutex<Vec<(usize, u8, Vec<u8>)>>>);
impl Log {
    pub fn kinds(&self) -> Vec<(usize, u8)> {
        self.0.lock().unwrap().iter().map(|x| (x.0, x.1)).collect()
    }
}

/// Reads one burst of bytes (a command) at a time; `h(connection, first byte, bytes, nth)` answers.
pub fn serve<F>(h: F) -> (u16, Log)
where
    F: Fn(usize, u8, &[u8], usize) -> Vec<Act> + std::marker::Send + Sync + 'static,
{
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let log = Log(Arc::new(Mutex::new(vec![])));
    let lg = log.clone();
    let h = Arc::new(h);
    std::thread::spawn(move || {
        let mut n = 0;
        for s in l.incoming() {
            let s = match s {
                Ok(s) => s,
                Err(_) => return,
            };
            let (h, lg, id) = (h.clone(), lg.clone(), n);
            n += 1;
            std::thread::spawn(move || conn(id, s, h, lg));
        }
    });
    (port, log)
}

fn conn<F>(id: usize, mut s: TcpStream, h: Arc<F>, log: Log)
where
    F: Fn(usize, u8, &[u8], usize) -> Vec<Act>,
{
    s.set_nodelay(true).unwrap();
    let mut nth = 0;
    loop {
        let mut buf = vec![];
        let mut tmp = [0u8; 65536];
        s.set_read_timeout(None).unwrap();
        match s.read(&mut tmp) {
            Ok(0) | Err(_) => return,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
        s.set_read_timeout(Some(Duration::from_millis(40))).unwrap();
        loop {
            match s.read(&mut tmp) {
                Ok(0) => break,
                Err(_) => break,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
            }
        }
        log.0.lock().unwrap().push((id, buf[0], buf.clone()));
        for a in h(id, buf[0], &buf, nth) {
            match a {
                Send(b) => {
                    if s.write_all(&b).is_err() {
                        return;
                    }
                }
                Sleep(ms) => std::thread::sleep(Duration::from_millis(ms)),
                Close => return,
            }
        }
        nth += 1;
    }
}

pub fn uv(mut n: u64, o: &mut Vec<u8>) {
    while n >= 0x80 {
        o.push(n as u8 | 0x80);
        n >>= 7;
    }
    o.push(n as u8);
}
pub fn st(s: &str, o: &mut Vec<u8>) {
    uv(s.len() as u64, o);
    o.extend_from_slice(s.as_bytes());
}
pub fn hello() -> Vec<u8> {
    hello_rev(54213)
}
pub fn hello_rev(rev: u64) -> Vec<u8> {
    let mut o = vec![0];
    st("mock", &mut o);
    uv(19, &mut o);
    uv(1, &mut o);
    uv(rev, &mut o);
    if rev >= 54058 {
        st("UTC", &mut o);
    }
    if rev >= 54372 {
        st("mock", &mut o);
    }
    if rev >= 54401 {
        uv(3, &mut o);
    }
    o
}
pub fn pong() -> Vec<u8> {
    vec![4]
}
pub fn eos() -> Vec<u8> {
    vec![5]
}
pub fn exception(msg: &str) -> Vec<u8> {
    let mut o = vec![2];
    o.extend_from_slice(&42u32.to_le_bytes());
    st("DB::Exception", &mut o);
    st(msg, &mut o);
    st("", &mut o);
    o.push(0);
    o
}
/// Data block without compression: columns (name, type, raw column bytes).
pub fn block(rows: u64, cols: &[(&str, &str, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![1];
    st("", &mut o);
    o.extend_from_slice(&[1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0]);
    uv(cols.len() as u64, &mut o);
    uv(rows, &mut o);
    for (n, t, d) in cols {
        st(n, &mut o);
        st(t, &mut o);
        o.extend_from_slice(d);
    }
    o
}
pub fn u32s(name: &str, v: &[u32]) -> Vec<u8> {
    let d: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    block(v.len() as u64, &[(name, "UInt32", d)])
}
/// hello, ping: answered; everything else by `f`.
pub fn usual(kind: u8) -> Option<Vec<Act>> {
    match kind {
        0 => Some(vec![Send(hello())]),
        4 => Some(vec![Send(pong())]),
        _ => None,
    }
}

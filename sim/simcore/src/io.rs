//! Simulated sinks and streams.
use crate::sched::yield_point;
use crate::sim::{callback, choose, fault};
use std::fmt;
use std::io::{self, Read, Write};

/// A text sink that fails once, when it has taken `fail_at` bytes (a transient failure: it would
/// accept later bytes, so a writer that carries on leaves a hole).
pub struct TextSink {
    pub buf: String,
    pub fail_at: Option<usize>,
    pub failed: bool,
}
impl TextSink {
    pub fn new(fail_at: Option<usize>) -> TextSink { TextSink { buf: String::new(), fail_at, failed: false } }
}
impl fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        callback(|| {
            yield_point(0x2001);
            if let Some(k) = self.fail_at {
                if !self.failed && self.buf.len() + s.len() > k {
                    let mut n = k - self.buf.len();
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    self.buf.push_str(&s[..n]);
                    self.failed = true;
                    fault("text-sink-failure");
                    return Err(fmt::Error);
                }
            }
            self.buf.push_str(s);
            Ok(())
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Full,
    Error,
}

/// A byte sink with short writes, interruptions and a failure at a byte position.
pub struct ByteSink {
    pub buf: Vec<u8>,
    pub fail_at: Option<(usize, Fail)>,
    pub chunks: bool,
    pub failed: bool,
    pub interrupts: bool,
}
impl Write for ByteSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        callback(|| {
            yield_point(0x2002);
            if b.is_empty() {
                return Ok(0);
            }
            if self.interrupts && choose(6) == 1 {
                fault("write-eintr");
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let mut n = b.len();
            if self.chunks && n > 1 {
                let k = choose(n.min(8));
                if k > 0 {
                    fault("short-write");
                    n = k;
                }
            }
            if let Some((k, kind)) = self.fail_at {
                let room = k.saturating_sub(self.buf.len());
                if room == 0 {
                    self.failed = true;
                    return match kind {
                        Fail::Full => {
                            fault("device-full");
                            Ok(0)
                        },
                        Fail::Error => {
                            fault("write-error");
                            Err(io::Error::new(io::ErrorKind::Other, "simulated device error"))
                        },
                    };
                }
                n = n.min(room);
            }
            self.buf.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// A byte source with short reads, interruptions and a failure at a byte position.
pub struct ByteSource {
    pub data: Vec<u8>,
    pub pos: usize,
    pub chunks: bool,
    pub interrupts: bool,
    pub fail_at: Option<usize>,
    pub failed: bool,
}
impl ByteSource {
    pub fn plain(data: Vec<u8>) -> ByteSource {
        ByteSource { data, pos: 0, chunks: false, interrupts: false, fail_at: None, failed: false }
    }
}
impl Read for ByteSource {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        callback(|| {
            yield_point(0x2003);
            if self.interrupts && choose(6) == 1 {
                fault("read-eintr");
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if let Some(k) = self.fail_at {
                if self.pos >= k {
                    self.failed = true;
                    fault("read-error");
                    return Err(io::Error::new(io::ErrorKind::Other, "simulated device error"));
                }
            }
            let left = self.data.len() - self.pos;
            let mut n = left.min(b.len());
            if let Some(k) = self.fail_at {
                n = n.min(k - self.pos);
            }
            if self.chunks && n > 1 {
                let k = choose(n.min(8));
                if k > 0 {
                    fault("short-read");
                    n = k;
                }
            }
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

/// Damage stored bytes; returns what was done ("" when nothing changed).
pub fn damage(data: &mut Vec<u8>) -> String {
    let before = data.clone();
    let n = data.len();
    let what = match choose(9) {
        0 => {
            data.truncate(choose(n + 1));
            "truncate"
        },
        1 => {
            if n > 0 {
                let i = choose(n);
                data[i] ^= 1 << choose(8);
            }
            "bit-flip"
        },
        2 => {
            if n > 0 {
                let i = choose(n);
                data[i] = choose(256) as u8;
            }
            "byte-overwrite"
        },
        3 => {
            let i = choose(n + 1);
            let k = 1 + choose(8);
            for j in 0..k {
                data.insert((i + j).min(data.len()), choose(256) as u8);
            }
            "insert"
        },
        4 => {
            if n > 0 {
                let i = choose(n);
                let k = (1 + choose(8)).min(n - i);
                data.drain(i..i + k);
            }
            "delete"
        },
        5 => {
            // torn: tail replaced by zeros
            let i = choose(n + 1);
            for b in &mut data[i..] {
                *b = 0;
            }
            "torn-zero-tail"
        },
        6 => {
            if n > 8 {
                let k = 1 + choose(8.min(n / 2));
                let i = choose(n - k + 1);
                let j = choose(n - k + 1);
                let c = data[i..i + k].to_vec();
                data[j..j + k].copy_from_slice(&c);
            }
            "block-copied"
        },
        7 => {
            // sign/exponent byte of an 8-byte word
            if n >= 8 {
                let w = choose(n / 8);
                let i = w * 8 + 7;
                data[i] = *crate::sim::pick(&[0x80, 0xff, 0x7f, 0xbf, 0x00, 0xc0, 0x40]);
                if choose(2) == 1 {
                    data[i - 1] = 0xf8;
                }
            }
            "word-top-byte"
        },
        _ => {
            if n >= 16 {
                let i = choose(n / 8 - 1) * 8;
                let c = data[i..i + 8].to_vec();
                let d = data[i + 8..i + 16].to_vec();
                data[i..i + 8].copy_from_slice(&d);
                data[i + 8..i + 16].copy_from_slice(&c);
            }
            "reorder-words"
        },
    };
    if *data == before {
        return String::new();
    }
    fault(&format!("stored-{}", what));
    what.to_string()
}

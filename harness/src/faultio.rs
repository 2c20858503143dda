//! Sources and sinks whose every call is scripted.
use std::io::{Error, ErrorKind, Read, Result, Write};

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Act {
    /// as much as possible
    Full,
    /// at most this many bytes
    Up(usize),
    /// all that is asked for but one byte
    AllButOne,
    Half,
    /// interrupted, to be repeated
    Intr,
    /// an error of this kind (number into KINDS), once
    Fail(usize),
    /// an error at this and every later call
    Dead(usize),
    /// no byte (for sinks)
    Zero,
}

pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::WriteZero,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
];

/// What happens at calls the script does not mention.
#[derive(Clone, Debug, Hash)]
pub enum Base {
    Full,
    /// pieces of at most this size
    Chunk(usize),
    /// interrupted before every success; pieces of at most this size
    Alternate(usize),
    /// pieces end at these places
    Cuts(Vec<usize>),
    /// everything up to this place; there, this happens (0 bytes or an error)
    Limit(usize, Act),
    /// the same, once
    LimitOnce(usize, Act),
}

#[derive(Clone, Debug, Hash)]
pub struct Script {
    pub base: Base,
    pub acts: Vec<(u64, Act)>,
}
impl Script {
    pub fn base(b: Base) -> Script {
        Script { base: b, acts: vec![] }
    }
    pub fn acts(a: &[(u64, Act)]) -> Script {
        Script { base: Base::Full, acts: a.to_vec() }
    }
}

struct State<'a> {
    s: &'a Script,
    call: u64,
    turn: bool,
    dead: Option<usize>,
    pub failed: bool,
}

enum Step {
    Give(usize),
    Fail(ErrorKind),
}

impl<'a> State<'a> {
    fn new(s: &'a Script) -> State<'a> {
        State { s, call: 0, turn: false, dead: None, failed: false }
    }
    /// what to do with a request of n > 0 bytes at place pos
    fn step(&mut self, n: usize, pos: usize) -> Step {
        let call = self.call;
        self.call += 1;
        if let Some(k) = self.dead {
            return Step::Fail(KINDS[k]);
        }
        let act = self.s.acts.iter().find(|a| a.0 == call).map(|a| a.1).unwrap_or(Act::Full);
        let (base, act) = match (&self.s.base, act) {
            (Base::Alternate(c), Act::Full) => {
                self.turn = !self.turn;
                (*c, if self.turn { Act::Intr } else { Act::Full })
            }
            (Base::Chunk(c), a) | (Base::Alternate(c), a) => (*c, a),
            (Base::Cuts(v), a) => (v.iter().find(|x| **x > pos).map_or(usize::MAX, |x| x - pos), a),
            (Base::Limit(at, x), a) => {
                if pos >= *at {
                    (usize::MAX, *x)
                } else {
                    (at - pos, a)
                }
            }
            (Base::LimitOnce(at, x), a) => {
                if pos < *at {
                    (at - pos, a)
                } else if !self.turn {
                    self.turn = true;
                    (usize::MAX, *x)
                } else {
                    (usize::MAX, a)
                }
            }
            (Base::Full, a) => (usize::MAX, a),
        };
        let n = n.min(base.max(1));
        match act {
            Act::Full => Step::Give(n),
            Act::Up(k) => Step::Give(n.min(k).max(1)),
            Act::AllButOne => Step::Give((n - 1).max(1)),
            Act::Half => Step::Give((n / 2).max(1)),
            Act::Intr => Step::Fail(ErrorKind::Interrupted),
            Act::Fail(k) => {
                self.failed = true;
                Step::Fail(KINDS[k])
            }
            Act::Dead(k) => {
                self.failed = true;
                self.dead = Some(k);
                Step::Fail(KINDS[k])
            }
            Act::Zero => {
                self.failed = true;
                Step::Give(0)
            }
        }
    }
}

pub struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    st: State<'a>,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], s: &'a Script) -> Source<'a> {
        Source { data, pos: 0, st: State::new(s) }
    }
    pub fn calls(&self) -> u64 {
        self.st.call
    }
    pub fn failed(&self) -> bool {
        self.st.failed
    }
}
impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let rest = self.data.len() - self.pos;
        // at the end the same acts apply, except that there is nothing to hand out
        match self.st.step(buf.len().min(rest.max(1)), self.pos) {
            Step::Fail(k) => Err(Error::new(k, "scripted")),
            Step::Give(n) => {
                let n = n.min(rest);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

pub struct Sink<'a> {
    pub got: Vec<u8>,
    st: State<'a>,
    /// flush reports this
    pub flush: Option<ErrorKind>,
    pub flushes: u64,
}
impl<'a> Sink<'a> {
    pub fn new(s: &'a Script) -> Sink<'a> {
        Sink { got: vec![], st: State::new(s), flush: None, flushes: 0 }
    }
    pub fn calls(&self) -> u64 {
        self.st.call
    }
    pub fn failed(&self) -> bool {
        self.st.failed
    }
}
impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.st.step(buf.len(), self.got.len()) {
            Step::Fail(k) => Err(Error::new(k, "scripted")),
            Step::Give(n) => {
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> Result<()> {
        self.flushes += 1;
        match self.flush {
            Some(k) => {
                self.st.failed = true;
                Err(Error::new(k, "scripted"))
            }
            None => Ok(()),
        }
    }
}

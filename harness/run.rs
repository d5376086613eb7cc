// Running a pipeline the way main() does, on in-memory sources, and stages on their own.
#![allow(dead_code)]
use crate::byte::*;
use crate::nd;
use crate::params::{BLOCK_SIZE, MARGIN_SIZE};
use crate::pipeline::*;
use crate::segment::*;
use anyhow::Result;
use clap::Parser;
use std::io::Read;

pub fn pipeline(args: &[&str]) -> Result<Pipeline> {
    let mut v = vec!["nd"];
    v.extend_from_slice(args);
    let a = PipelineArgs::try_parse_from(v)?;
    Pipeline::from_args(&a)
}
pub fn sources(inputs: &[Vec<u8>], mode: usize) -> Vec<Box<dyn Read + Send>> {
    let mut v: Vec<Box<dyn Read + Send>> = vec![];
    for i in inputs {
        v.push(Box::new(nd::Src::new(i, mode)));
    }
    v
}
pub fn drain(mut stream: Box<dyn ByteStream>) -> Result<Vec<u8>> {
    let mut out = vec![];
    loop {
        let (is_eof, bytes) = stream.fill_buf(BLOCK_SIZE)?;
        if is_eof && bytes == 0 {
            break;
        }
        let slice = stream.as_slice();
        out.extend_from_slice(&slice[..bytes]);
        stream.consume(bytes);
    }
    Ok(out)
}
/// the whole output of `nd ARGS` on the inputs
pub fn run(args: &[&str], inputs: &[Vec<u8>], mode: usize) -> Result<Vec<u8>> {
    let p = pipeline(args)?;
    drain(p.spawn_stream(sources(inputs, mode))?)
}
pub fn raw(d: &[u8], mode: usize) -> Box<dyn ByteStream> {
    let mode = if mode > 100 { 16 + nd::choice_in(1, mode - 100) } else { mode };
    Box::new(RawStream::new(Box::new(nd::Src::new(d, mode)), 1, 0))
}

/// A byte stream over a buffer that hands out any amount between what was asked for and the rest
/// (or everything at once), the way the documented contract of a stage allows.
/// `style` 0: exactly what is asked for; 1: everything; 2: either of them, one path each;
/// 3: any amount
pub struct Chunky {
    v: Vec<u8>,
    len: usize,
    offset: usize,
    have: usize,
    more: bool,
    style: usize,
}
impl Chunky {
    pub fn new(d: &[u8], style: usize) -> Chunky {
        let mut v = d.to_vec();
        v.resize(d.len() + MARGIN_SIZE, b'\n');
        Chunky { v, len: d.len(), offset: 0, have: 0, more: false, style }
    }
}
impl ByteStream for Chunky {
    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
        let rest = self.len - self.offset;
        let mut want = std::cmp::max(request, self.have + self.more as usize);
        self.more = false;
        want = std::cmp::min(want, rest);
        self.have = match self.style {
            0 => want,
            1 => rest,
            2 => {
                if want < rest && nd::choice(2) == 1 {
                    rest
                } else {
                    want
                }
            }
            _ => nd::choice_in(want, rest),
        };
        Ok((self.have == rest, self.have))
    }
    fn as_slice(&self) -> &[u8] {
        &self.v[self.offset..self.offset + self.have + MARGIN_SIZE]
    }
    fn consume(&mut self, amount: usize) {
        nd::check(amount <= self.have, "a stage consumes no more than it was given");
        self.more = amount == 0;
        self.offset += amount;
        self.have -= amount;
    }
}

/// Reads a stage to its end with requests and consumption chosen freely, and checks at every step
/// that what it presents is `want`. `nreq`: number of request sizes to choose from (1, 2, 7, a block
/// and one more byte); `zeros`: how many requests for more data (99: none, and everything is taken).
pub fn drain_any(stream: &mut dyn ByteStream, want: &[u8], nreq: usize, zeros: usize) {
    let reqs = [1, BLOCK_SIZE + 1, 2, BLOCK_SIZE, 2 * BLOCK_SIZE + 1];
    let mut acc = 0;
    let mut zeros = zeros;
    let mut was_eof = false;
    let mut prev = 0;
    let mut stalled = 0;
    loop {
        let req = reqs[nd::choice(nreq)];
        let (eof, n) = match stream.fill_buf(req) {
            Ok(x) => x,
            Err(_) => nd::fail("a valid stream ends in an error"),
        };
        nd::check(eof || n >= req, "at least what was asked for, unless the stream has ended");
        nd::check(acc + n <= want.len(), "no more bytes than the stream has");
        nd::check(!eof || acc + n == want.len(), "the end is reported when all bytes are there");
        nd::check(!was_eof || eof, "the end stays the end");
        nd::check(n >= prev, "what was presented stays there until consumed");
        if stalled > 0 && !eof && n == prev {
            // an exhausted source may have been passed over meanwhile
            nd::check(stalled < 8, "requests for more give more or reach the end");
            stalled += 1;
            stream.consume(0);
            continue;
        }
        was_eof = eof;
        let s = stream.as_slice();
        nd::check(s.len() >= n, "the slice covers the bytes announced");
        nd::check(nd::same(&s[..n], &want[acc..acc + n]), "the bytes of the stream");
        if eof && n == 0 {
            break;
        }
        let k = match zeros {
            0 => nd::choice_in(1, n),
            99 => n,
            _ => nd::choice_in(0, n),
        };
        if k == 0 && zeros != 99 {
            zeros -= 1;
        }
        stream.consume(k);
        acc += k;
        prev = n - k;
        stalled = (k == 0) as usize;
    }
    nd::check(acc == want.len(), "all bytes are handed over");
    nd::trace(acc as u64);
}

/// Reads a stage of slices to its end the way the next stage may, and checks at every step that it
/// shows `want` (absolute start and length, in order) over `data`.
/// `style` 0: takes all it can; 1: one byte or all it can; 2: any amount, `zeros` requests for more
pub fn drain_slices(stream: &mut dyn SegmentStream, data: &[u8], want: &[(usize, usize)], style: usize, zeros: usize) {
    drain_slices_to(stream, data, want, style, zeros, false)
}
/// the same for a stream that ends in an error after some of the slices
pub fn drain_slices_err(stream: &mut dyn SegmentStream, data: &[u8], want: &[(usize, usize)], style: usize, zeros: usize) {
    drain_slices_to(stream, data, want, style, zeros, true)
}
fn drain_slices_to(stream: &mut dyn SegmentStream, data: &[u8], want: &[(usize, usize)], style: usize, zeros: usize, fails: bool) {
    let mut zeros = zeros;
    let mut offset = 0; // bytes consumed
    let mut gone = 0; // slices consumed
    let mut seen = 0; // slices shown
    let mut idle = 0;
    let mut was_eof = false;
    loop {
        let (eof, bytes, count, max) = match stream.fill_segment_buf() {
            Ok(x) => x,
            Err(_) if fails => return,
            Err(_) => nd::fail("a valid stream ends in an error"),
        };
        let (s, segs) = stream.as_slices();
        nd::check(max <= bytes, "no more can be consumed than is there");
        nd::check(offset + bytes <= data.len(), "no more bytes than the stream has");
        nd::check(s.len() >= bytes, "as many bytes as announced");
        nd::check(segs.len() >= count, "as many slices as announced");
        nd::check(gone + count >= seen, "slices once shown stay until they are consumed");
        nd::check(gone + count <= want.len(), "no slice too many");
        nd::check(!was_eof || eof, "the end stays the end");
        was_eof = eof;
        nd::check(nd::same(&s[..bytes], &data[offset..offset + bytes]), "the bytes of the stream");
        for i in 0..count {
            let (p, l) = want[gone + i];
            nd::check(segs[i].pos + offset == p, "the slice starts where it should");
            nd::check(segs[i].len == l, "the slice is as long as it should be");
            nd::check(segs[i].pos + l <= bytes, "the slice lies in the bytes that are there");
        }
        seen = gone + count;
        if eof && fails {
            nd::fail("a stream that cannot be completed ends without an error");
        }
        if eof {
            nd::check(seen == want.len(), "every slice is there at the end");
            nd::check(max == bytes, "everything can be consumed at the end");
            if bytes == 0 {
                break;
            }
        }
        for i in seen..want.len() {
            nd::check(want[i].0 >= offset + max, "no slice is passed over");
        }
        let k = match style {
            // what is too little for a step may come back as nothing; then all that can be taken is
            _ if idle > 0 => max,
            0 => max,
            1 => {
                if max > 1 && nd::choice(2) == 0 {
                    1
                } else {
                    max
                }
            }
            _ => {
                if zeros > 0 {
                    nd::choice_in(0, max)
                } else {
                    nd::choice_in(std::cmp::min(1, max), max)
                }
            }
        };
        if k == 0 && max > 0 {
            zeros -= 1;
        }
        let starts: Vec<usize> = segs[..count].iter().map(|x| x.pos).collect();
        let (b, n) = match stream.consume(k) {
            Ok(x) => x,
            Err(_) => nd::fail("a valid stream ends in an error"),
        };
        nd::check(b <= k, "what is consumed was there");
        nd::check(b == k || !eof || k < max, "all that is left can be consumed at once");
        nd::check(n == starts.iter().filter(|&&x| x < b).count(), "the slices that start in the consumed bytes are consumed");
        offset += b;
        gone += n;
        idle = if b == 0 { idle + 1 } else { 0 };
        nd::check(idle < 12 + data.len(), "the stage makes progress");
    }
    nd::check(seen == want.len(), "every slice is there at the end");
    for &(p, l) in want {
        nd::trace(p as u64);
        nd::trace(l as u64);
    }
}

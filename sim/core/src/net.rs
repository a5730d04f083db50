//! The simulated network: everything timely's byte queues carry is diverted here and released when due.
use crate::{interpose, me, sim, try_sim};
use crate::tape::{Stream, Tape};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;
use timely_bytes::arc::Bytes;
use timely_communication::allocator::zero_copy::bytes_exchange::QueueEntry;
use timely_communication::allocator::zero_copy::spill::{SpillPolicy, SpillPolicyFn};
use timely_communication::networking::MessageHeader;

struct Pkt { at: u64, seq: u64, channel: usize, bytes: Bytes }

#[derive(Default)]
pub struct Net {
    queues: BTreeMap<(usize, usize), Vec<Pkt>>,
    last: BTreeMap<(usize, usize, usize), u64>,
    blocked: BTreeMap<(usize, usize), u64>,
    seq: u64,
    peers: usize,
    pub style: u64,
    max: u64,
    slow_mod: u64,
    slow_sel: u64,
    channels: Vec<usize>,
    healed: bool,
    pub sent: u64,
    pub delayed: u64,
    pub reordered: u64,
    pub max_seq_out: BTreeMap<(usize, usize), u64>,
}

impl Net {
    pub fn configure(&mut self, tape: &mut Tape, peers: usize) {
        *self = Net { sent: self.sent, delayed: self.delayed, reordered: self.reordered, ..Net::default() };
        self.peers = peers;
        // 0: immediate; 1: uniform small; 2: uniform large; 3: heavy tail; 4: some channels slow; 5: some links slow
        self.style = tape.weighted(Stream::Net, &[2, 3, 2, 3, 4, 2]);
        self.max = 1 + tape.draw(Stream::Net, 4) * 8;
        self.slow_mod = 2 + tape.draw(Stream::Net, 5);
        self.slow_sel = tape.draw(Stream::Net, 8);
    }
    pub fn describe(&self) -> String { format!("net=style{} max{}", self.style, self.max) }
    pub fn clear(&mut self) { self.queues.clear(); self.last.clear(); self.blocked.clear(); self.channels.clear(); self.max_seq_out.clear(); }
    pub fn heal_all(&mut self) {
        self.healed = true;
        self.blocked.clear();
        for q in self.queues.values_mut() { for p in q.iter_mut() { p.at = 0; } }
        self.last.clear();
    }
    pub fn partition(&mut self, a: usize, b: usize, until: u64) { let e = self.blocked.entry((a, b)).or_insert(0); *e = (*e).max(until); }
    pub fn hold_channel(&mut self, c: usize, until: u64) -> bool {
        if self.channels.is_empty() { return false; }
        let chan = self.channels[c % self.channels.len()];
        let mut any = false;
        for ((s, d), q) in self.queues.iter_mut() {
            for p in q.iter_mut().filter(|p| p.channel == chan) {
                p.at = p.at.max(until); any = true;
                let l = self.last.entry((chan, *s, *d)).or_insert(0); *l = (*l).max(p.at);
            }
        }
        any
    }
    fn send(&mut self, tape: &mut Tape, now: u64, src: usize, dst: usize, header: &MessageHeader, bytes: Bytes) -> u64 {
        if !self.channels.contains(&header.channel) { self.channels.push(header.channel); }
        self.sent += 1;
        let delay = if self.healed { 0 } else {
            match self.style {
                0 => 0,
                1 => tape.draw(Stream::Net, 4),
                2 => tape.draw(Stream::Net, self.max + 1),
                3 => match tape.weighted(Stream::Net, &[12, 4, 1]) { 0 => 0, 1 => 1 + tape.draw(Stream::Net, 5), _ => 5 + tape.draw(Stream::Net, 80) },
                4 => if header.channel as u64 % self.slow_mod == self.slow_sel % self.slow_mod { tape.draw(Stream::Net, 3 * self.max + 2) } else { tape.draw(Stream::Net, 2) },
                _ => if ((src * self.peers + dst) as u64 + self.slow_sel) % self.slow_mod == 0 { tape.draw(Stream::Net, 3 * self.max + 2) } else { 0 },
            }
        };
        if delay > 0 { self.delayed += 1; }
        let flow = (header.channel, src, dst);
        let last = self.last.entry(flow).or_insert(0);
        let at = (now + delay).max(*last);
        *last = at;
        self.seq += 1;
        let seq = self.seq;
        let pos_q = self.queues.entry((src, dst)).or_default();
        pos_q.push(Pkt { at, seq, channel: header.channel, bytes });
        delay
    }
    fn receive(&mut self, now: u64, src: usize, dst: usize) -> Vec<(usize, Bytes)> {
        if !self.healed && self.blocked.get(&(src, dst)).is_some_and(|t| *t > now) { return vec![]; }
        let Some(q) = self.queues.get_mut(&(src, dst)) else { return vec![] };
        if q.is_empty() { return vec![]; }
        let healed = self.healed;
        let mut due: Vec<Pkt> = vec![];
        let mut rest = vec![];
        for p in q.drain(..) { if healed || p.at <= now { due.push(p) } else { rest.push(p) } }
        *q = rest;
        due.sort_by_key(|p| (p.at, p.seq));
        let top = self.max_seq_out.entry((src, dst)).or_insert(0);
        for p in due.iter() { if p.seq < *top { self.reordered += 1; } else { *top = p.seq; } }
        due.into_iter().map(|p| (p.channel, p.bytes)).collect()
    }
    pub fn in_flight(&self) -> usize { self.queues.values().map(|q| q.len()).sum() }
}

thread_local! { static PULLER: Cell<usize> = const { Cell::new(0) }; }
pub fn reset_puller() { PULLER.with(|p| p.set(0)); }

struct Writer { src: usize, dst: usize }
struct Reader { src: usize, dst: usize }

fn fnv(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); } h }

impl SpillPolicy for Writer {
    fn apply(&mut self, queue: &mut VecDeque<QueueEntry>) {
        let Some(sim) = try_sim() else { return };
        let mut guard = sim.lock();
        let st = &mut *guard;
        while let Some(entry) = queue.pop_front() {
            let QueueEntry::Bytes(mut bytes) = entry else { unreachable!("paged entry in simulated network") };
            while !bytes.is_empty() {
                let header = MessageHeader::try_read(&bytes[..]).expect("whole messages");
                let msg = bytes.extract_to(header.required_bytes());
                let h = fnv(&msg[..]);
                let (src, dst) = (self.src, self.dst);
                let delay = st.net.send(&mut st.tape, st.now, src, dst, &header, msg);
                st.event(sim.verbose, || format!("send ch{} w{src}->w{dst} {}B delay {delay}", header.channel, header.length), h);
            }
        }
    }
}
impl SpillPolicy for Reader {
    fn apply(&mut self, queue: &mut VecDeque<QueueEntry>) {
        let Some(sim) = try_sim() else { return };
        let mut guard = sim.lock();
        let st = &mut *guard;
        let now = st.now;
        for (channel, bytes) in st.net.receive(now, self.src, self.dst) {
            let (src, dst) = (self.src, self.dst);
            st.event(sim.verbose, || format!("recv ch{channel} w{src}->w{dst} {}B", bytes.len()), interpose::splitmix((channel * 64 + src * 8 + dst) as u64));
            queue.push_back(QueueEntry::Bytes(bytes));
        }
    }
}

pub fn policies() -> SpillPolicyFn {
    Arc::new(|| {
        let _ = sim();
        let dst = me();
        let src = PULLER.with(|p| { let v = p.get(); p.set(v + 1); v });
        (Box::new(Writer { src, dst }) as Box<dyn SpillPolicy>, Box::new(Reader { src, dst }) as Box<dyn SpillPolicy>)
    })
}

//! Random histories.
use crate::env::*;
use crate::oracle;
use crate::world::*;
use solana_program::{instruction::AccountMeta, pubkey::Pubkey};
use std::cell::RefCell;
use std::collections::BTreeMap;

/// 0 general trading, 1 full books, 2 market initialisation, 3 packet decoding, 4 account substitution,
/// 5 market life cycle, 6 seats
pub const PROFILES: &[u8] = &[0, 0, 0, 1, 4, 0, 5, 0, 4, 6, 1, 0, 2, 5, 3, 0];

pub struct Rng(pub u64);
impl Rng {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: u64) -> u64 {
        if k == 0 { 0 } else { self.u() % k }
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.n(100) < p
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        let i = self.n(l.len() as u64) as usize;
        &l[i]
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.n(b - a + 1)
    }
}
pub struct CaseResult {
    pub viol: Vec<(&'static str, String)>,
    pub trace: Vec<String>,
    pub steps: u64,
    pub stats: BTreeMap<String, u64>,
}
const NT: usize = 6;

fn params(r: &mut Rng) -> Params {
    let (bdec, qdec) = *r.pick(&[(3u8, 6u8), (6, 6), (9, 6), (2, 3), (9, 9), (0, 2)]);
    let raw = *r.pick(&[None, None, None, Some(1u32), Some(10), Some(1000)]);
    let bpu = 10u64.pow(bdec as u32) * raw.unwrap_or(1) as u64;
    let qpu = 10u64.pow(qdec as u32);
    let div = |r: &mut Rng, n: u64| loop {
        let d = *r.pick(&[1u64, 2, 4, 5, 10, 20, 100, 1000, 1_000_000]);
        if n % d == 0 {
            break d;
        }
    };
    let blpu = div(r, bpu);
    let qlpu = div(r, qpu);
    let tick = blpu * *r.pick(&[1u64, 1, 2, 3, 10, 100]);
    Params { sizes: (512, 512, 128), qlpu, tick, blpu, fee: *r.pick(&[0u16, 1, 5, 30, 100, 500, 2500, 9999, 10000]), raw, bdec, qdec }
}
fn sized(r: &mut Rng) -> (u64, u64, u64) {
    if r.pct(93) { (512, 512, 128) } else { *r.pick(&[(512, 512, 1025), (512, 512, 1153), (1024, 1024, 128), (1024, 1024, 2049), (1024, 1024, 2177), (2048, 2048, 128)]) }
}
fn sw(e: &mut Env) {
    std::mem::swap(&mut e.m, &mut e.m2);
}
fn must(e: &mut Env, op: Op) {
    let (m, d) = e.build(&op);
    let o = e.w.exec(&m, &d);
    if let Err(x) = o.res {
        SETUP.with(|s| s.borrow_mut().push(format!("set-up step {:?} refused: {}", op, x)));
    }
}
thread_local! {
    static SETUP: RefCell<Vec<String>> = RefCell::new(vec![]);
    static CACHE: RefCell<BTreeMap<(u64, bool), (Env, Vec<String>)>> = RefCell::new(BTreeMap::new());
}
/// Two markets over the same mints, six traders. Market 1: traders 0..=3 approved, 4 seat unapproved, 5 no seat.
fn setup(cfg: u64, full: bool) -> (Env, Vec<String>) {
    if let Some(x) = CACHE.with(|c| c.borrow().get(&(cfg, full)).cloned()) {
        return x;
    }
    SETUP.with(|s| s.borrow_mut().clear());
    let mut r = Rng(cfg.wrapping_mul(77).wrapping_add(5));
    let mut p = params(&mut r);
    if !full { p.sizes = sized(&mut r); }
    if full && p.fee == 10000 { p.fee = 3; }
    let mut p2 = p.clone();
    p2.fee = 7;
    p2.sizes = (512, 512, 128);
    let mut w = World::new();
    let (bm, qm) = (key(b'B', cfg), key(b'Q', cfg));
    let b1 = body_size(p.sizes).unwrap();
    let b2 = body_size(p2.sizes).unwrap();
    let (m, o1) = mk_market(&mut w, cfg * 2 + 1, p, bm, qm, b1);
    let (m2, o2) = mk_market(&mut w, cfg * 2 + 2, p2, bm, qm, b2);
    for (o, n) in [(o1, 1), (o2, 2)] {
        if let Err(x) = o.res {
            SETUP.with(|s| s.borrow_mut().push(format!("initialisation of valid market {} refused: {}", n, x)));
        }
    }
    let traders: Vec<Pubkey> = (0..NT as u64).map(|i| key(b'T', cfg * 10 + i)).collect();
    let mut e = Env { w, m, m2, traders };
    let qls = 10u64.pow(e.m.p.qdec as u32) / e.m.p.qlpu;
    let bls = 10u64.pow(e.m.p.bdec as u32) * e.m.p.raw.unwrap_or(1) as u64 / e.m.p.blpu;
    for (i, t) in e.traders.clone().iter().enumerate() {
        e.w.accts.insert(*t, Acct { owner: SYS, lamports: 1 << 40, data: vec![] });
        let rich = if full { 1 << 30 } else { *r.pick(&[50_000_000u64, 50_000_000, 3000, 400]) };
        let (bq, bb) = (rich * (e.m.p.tick / e.m.p.blpu).min(1000), rich);
        e.w.add_token(Env::ata(t, &qm), qm, *t, (bq.saturating_mul(qls)).min(1 << 58) + r.n(qls));
        e.w.add_token(Env::ata(t, &bm), bm, *t, bb.saturating_mul(bls).min(1 << 58) + r.n(bls));
        let _ = i;
    }
    let fr2 = e.m2.fee_rcpt;
    e.w.add_token(Env::ata(&e.m.creator.clone(), &qm), qm, e.m.creator, 0);
    let _ = fr2;
    for t in 0..NT {
        if r.pct(25) { let k = seat_key(&e.m.key, &e.traders[t]); prefund(&mut e.w, &mut r, k); }
    }
    for s in 0..2 {
        for t in 0..5usize {
            if s == 1 && t == 1 { continue; }
            let auth = e.m.creator;
            must(&mut e, Op::ReqSeatAuth { auth, t });
            if t < 4 {
                must(&mut e, Op::SeatStatus { auth, t, st: 1 });
            }
        }
        let auth = e.m.creator;
        must(&mut e, Op::Status { auth, st: 1, recv: None });
        if s == 0 { sw(&mut e) }
    }
    // funds in the second market
    must(&mut e, Op::Deposit { t: 0, q: 100, b: 100 });
    sw(&mut e);
    if full {
        // 512 resting orders per side by traders 0 and 1, several per price
        for side in [0u8, 1] {
            for k in 0..16u64 {
                let l: Vec<Cond> = (0..32u64)
                    .map(|i| {
                        let n = k * 32 + i;
                        let pr = if side == 0 { 40 + n % 60 } else { 101 + n % 60 };
                        let (lvs, lvt) = match r.n(8) { 0 => (Some(101 + r.n(6)), None), 1 => (None, Some(1001 + r.n(40))), _ => (None, None) };
                        Cond { price: pr, size: 1 + r.n(5), lvs, lvt }
                    })
                    .collect();
                let (bids, asks) = if side == 0 { (l, vec![]) } else { (vec![], l) };
                must(&mut e, Op::Multi { t: (k % 2) as usize, ff: false, bids, asks, cid: None, beh: 0 });
            }
        }
    }
    let s = SETUP.with(|s| s.borrow_mut().drain(..).collect::<Vec<_>>());
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 12 { let k = *c.keys().next().unwrap(); c.remove(&k); }
        c.insert((cfg, full), (e.clone(), s.clone()));
    });
    (e, s)
}
fn oopt(r: &mut Rng, now: u64, span: u64) -> Option<u64> {
    match r.n(100) {
        0..=69 => None,
        70..=74 => Some(now),
        75..=78 => Some(now - 1),
        79 => Some(0),
        80 => Some(1),
        81 => Some(u64::MAX),
        _ => Some(now + r.n(span)),
    }
}
fn price(r: &mut Rng, full: bool) -> u64 {
    match r.n(100) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - 1,
        3..=5 => 1,
        6 => 2,
        _ => if full { r.range(30, 170) } else { r.range(3, 16) },
    }
}
fn size(r: &mut Rng) -> u64 {
    match r.n(100) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << 33,
        3..=8 => r.range(50, 2000),
        _ => r.range(1, 20),
    }
}
fn packet(r: &mut Rng, e: &Env, kind: u8, ff: bool, full: bool) -> P {
    let side = r.n(2) as u8;
    let qb = kind == 2 && r.pct(40);
    let mut base = size(r);
    let mut quote = 0;
    if kind == 2 {
        if qb { quote = if r.pct(50) { size(r).wrapping_mul(e.m.p.tick) / e.m.p.blpu.max(1) % (1 << 50) * r.range(1, 12) + r.n(3) } else { size(r) }; base = 0; }
        if r.pct(2) { quote = 5; base = 5; }
        if full && r.pct(30) { if qb { quote = quote.saturating_mul(200); } else { base = base.saturating_mul(100); } }
    }
    let pr = price(r, full);
    P {
        kind, side,
        price: if kind == 2 { if r.pct(30) { None } else { Some(pr) } } else { Some(pr) },
        base, quote,
        min_base: if r.pct(75) { 0 } else { r.range(1, 12) },
        min_quote: if r.pct(80) { 0 } else { r.range(1, 60) },
        stb: r.n(3) as u8,
        ml: match r.n(10) { 0..=5 => None, 6 => Some(r.n(2)), 7 => Some(u64::MAX), _ => Some(r.range(1, 5)) },
        cid: if r.pct(50) { 0 } else { ((r.u() as u128) << 64) | r.u() as u128 },
        reject: r.pct(30),
        dep: if r.pct(2) { !ff } else { ff },
        lvs: oopt(r, e.w.slot, 6),
        lvt: oopt(r, e.w.ts, 40),
        silent: r.pct(25),
    }
}
fn o32(r: &mut Rng) -> Option<u32> {
    match r.n(10) { 0..=4 => None, 5 => Some(0), 6 => Some(u32::MAX), _ => Some(r.range(1, 6) as u32) }
}
fn gen_op(r: &mut Rng, e: &Env, s: &Snap, prof: u8) -> Op {
    let full = prof == 1;
    let t = if r.pct(90) { r.n(4) as usize } else { r.n(NT as u64) as usize };
    let ff = r.pct(45);
    let ww = r.pct(50);
    let auth = if r.pct(90) { s.authority } else { *r.pick(&[e.traders[t], e.m.creator, s.successor, s.fee_rcpt]) };
    let lim = if r.pct(50) { None } else { Some(price(r, full)) };
    // weights
    let wts: &[(u64, u8)] = match prof {
        1 => &[(20, 0), (45, 1), (12, 2), (6, 3), (3, 4), (6, 5), (5, 6), (2, 7), (2, 8), (3, 20)],
        5 => &[(8, 0), (8, 1), (2, 2), (3, 3), (8, 4), (3, 5), (2, 6), (8, 7), (4, 8), (3, 9), (2, 10), (10, 11), (18, 12), (10, 13), (10, 14), (6, 15), (4, 16), (4, 17), (22, 18), (2, 20)],
        6 => &[(6, 0), (8, 1), (2, 2), (2, 4), (6, 7), (8, 8), (14, 9), (14, 10), (26, 11), (12, 12), (10, 13), (2, 18), (2, 20)],
        _ => &[(20, 0), (34, 1), (8, 2), (6, 3), (2, 4), (5, 5), (6, 6), (5, 7), (4, 8), (1, 9), (1, 10), (3, 11), (2, 12), (3, 13), (3, 14), (2, 15), (2, 16), (2, 17), (4, 18), (1, 19), (6, 20)],
    };
    let tot: u64 = wts.iter().map(|x| x.0).sum();
    let mut x = r.n(tot);
    let mut k = 0;
    for (w, c) in wts {
        if x < *w { k = *c; break; }
        x -= w;
    }
    let ord = |r: &mut Rng| -> Option<(u8, Ord_)> {
        let side = r.n(2) as u8;
        let own: Vec<&Ord_> = s.book(side).iter().filter(|o| o.trader == e.traders[t] || r.0 % 8 == 0).collect();
        if own.is_empty() { None } else { let i = r.n(own.len() as u64) as usize; Some((side, own[i].clone())) }
    };
    match k {
        0 => { let kind = if r.pct(97) { 2 } else { r.n(3) as u8 }; Op::Swap { t, ff, p: packet(r, e, kind, ff, full) } }
        1 => { let kind = if r.pct(98) { r.n(2) as u8 } else { 2 }; Op::Limit { t, ff, p: packet(r, e, kind, ff, full) } }
        2 => {
            let mk = |r: &mut Rng, lo: u64, hi: u64| -> Vec<Cond> {
                (0..r.n(5)).map(|_| Cond { price: if r.pct(96) { r.range(lo, hi) } else { price(r, full) }, size: if r.pct(95) { r.range(1, 12) } else { size(r) }, lvs: oopt(r, e.w.slot, 6), lvt: if r.pct(80) { None } else { oopt(r, e.w.ts, 40) } }).collect()
            };
            let cut = if full { 100 } else { r.range(5, 13) };
            let (a, b) = if full { (60, 140) } else { (3, 16) };
            let bids = mk(r, a, cut);
            let lo = if r.pct(90) { cut + 1 } else { cut };
            let asks = mk(r, lo, b.max(cut + 1));
            Op::Multi { t, ff, bids, asks, cid: if r.pct(50) { None } else { Some(r.u() as u128) }, beh: if r.pct(98) { r.n(4) as u8 } else { 4 } }
        }
        3 => match ord(r) {
            Some((side, o)) => {
                let size = match r.n(5) { 0 => o.lots, 1 => o.lots + 1 + r.n(4), 2 => r.n(2), _ => r.n(o.lots + 1) };
                if r.pct(4) { Op::Reduce { t, ww, side: 1 - side, price: o.price, seq: o.seq, size } }
                else if r.pct(4) { Op::Reduce { t, ww, side, price: o.price.wrapping_add(1), seq: o.seq, size } }
                else { Op::Reduce { t, ww, side, price: o.price, seq: o.seq, size } }
            }
            None => Op::Reduce { t, ww, side: r.n(2) as u8, price: price(r, full), seq: r.n(50), size: 3 },
        },
        4 => Op::CancelAll { t, ww },
        5 => Op::CancelUpTo { t, ww, side: r.n(2) as u8, lim, search: o32(r), cancel: o32(r) },
        6 => {
            let mut ids = vec![];
            for _ in 0..r.n(5) {
                if let Some((side, o)) = ord(r) {
                    let sd = if r.pct(3) { 1 - side } else { side };
                    ids.push((sd, o.price, o.seq));
                    if r.pct(5) { ids.push((sd, o.price, o.seq)); }
                }
                if r.pct(8) { ids.push((r.n(2) as u8, price(r, full), r.n(40))); }
            }
            Op::CancelById { t, ww, ids }
        }
        7 => { let am = |r: &mut Rng, f: u64| match r.n(5) { 0 | 1 => None, 2 => Some(f), 3 => Some(f.wrapping_add(1)), _ => Some(r.n(f.saturating_add(1).max(1))) }; let ts = s.ts(&e.traders[t]); Op::Withdraw { t, q: am(r, ts.qf), b: am(r, ts.bf) } }
        8 => Op::Deposit { t, q: if r.pct(40) { 0 } else { size(r) % (1 << 35) * r.range(1, 40) }, b: if r.pct(40) { 0 } else { size(r) % (1 << 40) } },
        9 => Op::ReqSeat { t: if r.pct(60) { 5 } else { t } },
        10 => Op::ReqSeatAuth { auth, t: if r.pct(60) { 5 } else { t } },
        11 => Op::SeatStatus { auth, t: if r.pct(40) { 4 + r.n(2) as usize } else { t }, st: if r.pct(97) { r.n(3) as u8 } else { 3 } },
        12 => Op::Evict { auth, t: r.n(NT as u64) as usize },
        13 => { let t = r.n(NT as u64) as usize; Op::ForceCancel { auth, t, side: r.n(2) as u8, lim, search: if prof == 5 { None } else { o32(r) }, cancel: if prof == 5 { None } else { o32(r) } } }
        14 => Op::CollectFees { signer: *r.pick(&[e.traders[t], s.fee_rcpt, s.authority]) },
        15 => Op::ChangeFee { auth, new: *r.pick(&[e.traders[t], e.m.fee_rcpt, e.m.creator]), prev: match r.n(5) { 0 => None, 1 => Some((s.fee_rcpt, false)), 2 => Some((*r.pick(&e.traders), true)), _ => Some((s.fee_rcpt, true)) } },
        16 => Op::NameSucc { auth, new: *r.pick(&[e.traders[t], e.m.creator, e.m.fee_rcpt]) },
        17 => Op::Claim { signer: if r.pct(70) { s.successor } else { *r.pick(&[e.traders[t], s.authority, e.m.creator]) } },
        18 => {
            let st = if prof == 5 { r.range(1, 5) as u8 } else { match r.n(20) { 0 => 0, 1 => 6, 2 => 5, 3 => 4, 4 | 5 => 3, 6..=8 => 2, _ => 1 } };
            Op::Status { auth, st, recv: if st == 5 && r.pct(80) { Some(e.traders[t]) } else { None } }
        }
        19 => Op::Log { auth: *r.pick(&[log_auth(), e.traders[t]]), signed: r.pct(50) },
        _ => Op::Time { slots: r.n(4), secs: r.n(25) },
    }
}
fn tamper(r: &mut Rng, e: &Env, w: &mut World, m: &mut Vec<AccountMeta>) {
    if m.is_empty() { return; }
    let i = if r.pct(30) { 3.min(m.len() - 1) } else { r.n(m.len() as u64) as usize };
    match r.n(12) {
        0 | 1 => m[i].is_signer = false,
        2 => { m.pop(); }
        3 => { let j = r.n(m.len() as u64) as usize; let (a, b) = (m[i].pubkey, m[j].pubkey); m[i].pubkey = b; m[j].pubkey = a; }
        4 => {
            // the same bytes in an account of another program
            let k = m[i].pubkey;
            let mut a = w.get(&k);
            a.owner = key(b'X', 3);
            let fk = key(b'Y', r.n(1000));
            w.accts.insert(fk, a);
            m[i].pubkey = fk;
        }
        5 => {
            // a token account for the wrong mint or owner
            let fk = key(b'Z', r.n(1000));
            let (mint, own) = match r.n(3) { 0 => (e.m.bm, *r.pick(&e.traders)), 1 => (e.m.qm, *r.pick(&e.traders)), _ => (key(b'V', 1), *r.pick(&e.traders)) };
            w.add_token(fk, mint, own, 1 << 40);
            m[i].pubkey = fk;
        }
        6 => {
            // every account of the second market
            let map = [(e.m.key, e.m2.key), (e.m.bv, e.m2.bv), (e.m.qv, e.m2.qv)];
            for x in m.iter_mut() { for (a, b) in map { if x.pubkey == a && r.pct(70) { x.pubkey = b; break; } } }
            for t in &e.traders { let (a, b) = (seat_key(&e.m.key, t), seat_key(&e.m2.key, t)); for x in m.iter_mut() { if x.pubkey == a && r.pct(70) { x.pubkey = b; } } }
        }
        7 | 8 => {
            // another signer, everything else unchanged
            let j = 3.min(m.len() - 1);
            m[j].pubkey = *r.pick(&[e.traders[0], e.traders[1], e.traders[4], e.m.creator, e.m.fee_rcpt, e.m2.creator]);
        }
        _ => {
            let t = *r.pick(&e.traders);
            let c = [e.m.key, e.m2.key, e.m.bv, e.m.qv, e.m2.bv, e.m2.qv, Env::ata(&t, &e.m.bm), Env::ata(&t, &e.m.qm), seat_key(&e.m.key, &t), seat_key(&e.m2.key, &t), t, e.m.creator, e.m.bm, e.m.qm, TOKEN, SYS, phoenix::ID, log_auth()];
            m[i].pubkey = *r.pick(&c);
        }
    }
}
fn history(prof: u8, seed: u64) -> CaseResult {
    let mut r = Rng(seed ^ 0xABCD_EF01);
    let full = prof == 1;
    let cfg = if full { r.n(3) } else { 100 + r.n(400) };
    let (mut e, setup_err) = setup(cfg, full);
    let mut res = CaseResult { viol: vec![], trace: vec![], steps: 0, stats: BTreeMap::new() };
    res.trace.push(format!("market {:?}", e.m.p));
    if !setup_err.is_empty() {
        res.viol.push(("C22", setup_err[0].clone()));
        if e.w.get(&e.m.key).data.len() < 576 || ru64(&e.w.get(&e.m.key).data, 16) == 0 { return res; }
    }
    let len = if full { 25 } else { r.range(10, 60) };
    let mut pre = e.snap();
    oracle::invariants(&mut res.viol, &pre, e.w.slot, e.w.ts);
    for _ in 0..len {
        let op = gen_op(&mut r, &e, &pre, prof);
        if let Op::Time { slots, secs } = op {
            e.w.slot += slots;
            e.w.ts += secs;
            res.trace.push(format!("{:?}", op));
            continue;
        }
        let (mut metas, data) = e.build(&op);
        let mut tampered = false;
        let orig = metas.clone();
        let mut w0 = e.w.clone();
        if r.pct(if prof == 4 { 55 } else { 3 }) {
            tamper(&mut r, &e, &mut w0, &mut metas);
            tampered = metas != orig;
        }
        e.w = w0.clone();
        let out = e.w.exec(&metas, &data);
        res.steps += 1;
        let ok = out.res.is_ok();
        *res.stats.entry(format!("ix{}{}{}", data[0], if tampered { "t" } else { "" }, if ok { "_ok" } else { "_err" })).or_default() += 1;
        let post = if ok { e.snap() } else { pre.clone() };
        res.trace.push(format!("{:?}{} -> {:?}", op, if tampered { format!(" accounts {:?}", metas.iter().map(|m| (m.pubkey, m.is_signer)).collect::<Vec<_>>()) } else { String::new() }, out.res));
        let st = oracle::Step { env: &e, op: &op, metas: &metas, data: &data, tampered, pre: &pre, post: &post, out: &out, pre_w: &w0, slot: e.w.slot, ts: e.w.ts };
        res.viol.extend(oracle::step(&st));
        if post.exists && r.pct(if full { 8 } else { 15 }) {
            let lv = *r.pick(&[0u64, 1, 2, 3, 5, 100]);
            let sl = match r.n(3) { 0 => None, 1 => Some(e.w.slot), _ => Some(e.w.slot + r.n(5)) };
            let tt = match r.n(3) { 0 => None, 1 => Some(e.w.ts), _ => Some(e.w.ts + r.n(30)) };
            oracle::ladder(&mut res.viol, &e, &post, lv, sl, tt);
        }
        if !post.exists { break; }
        if !res.viol.is_empty() { break; }
        pre = post;
    }
    res
}
/// Market initialisation with valid and invalid parameters.
fn prefund(w: &mut World, r: &mut Rng, k: Pubkey) {
    w.accts.insert(k, Acct { owner: SYS, lamports: *r.pick(&[1u64, 890_880, 1_781_759, 1_781_760, 2_039_279, 2_039_280, 1 << 32]), data: vec![] });
}
fn init_case(seed: u64) -> CaseResult {
    let mut r = Rng(seed ^ 0x1357);
    let mut res = CaseResult { viol: vec![], trace: vec![], steps: 0, stats: BTreeMap::new() };
    let listed = [(512, 512, 128), (512, 512, 1025), (512, 512, 1153), (1024, 1024, 128), (1024, 1024, 2049), (1024, 1024, 2177), (2048, 2048, 128), (2048, 2048, 4097), (2048, 2048, 4225), (4096, 4096, 128), (4096, 4096, 8193), (4096, 4096, 8321)];
    for _ in 0..6 {
        let mut p = params(&mut r);
        p.sizes = if r.pct(50) { listed[0] } else { *r.pick(&listed) };
        let body = body_size(p.sizes).unwrap_or(0);
        let (mut short, mut long) = (0usize, 0usize);
        match r.n(13) {
            0 => p.fee = *r.pick(&[10000u16, 10001, 65535]),
            1 => p.blpu = *r.pick(&[0u64, 3, 7, 2000]),
            2 => p.qlpu = *r.pick(&[0u64, 3, 7, 3000]),
            3 => p.tick = p.tick + 1 + r.n(5),
            4 => p.sizes = *r.pick(&[(512, 1024, 128), (512, 512, 129), (0, 0, 0), (1024, 512, 128), (512, 512, 8193)]),
            5 => if r.pct(50) { short = 1 + r.n(64) as usize } else { long = 1 + r.n(600) as usize },
            6 => p.raw = Some(*r.pick(&[0u32, 1, 7, 1_000_000_000])),
            7 => p.tick = 0,
            _ => {}
        }
        let bpu = 10u128.pow(p.bdec as u32) * p.raw.unwrap_or(1) as u128;
        let qpu = 10u64.pow(p.qdec as u32);
        let valid = listed.contains(&p.sizes) && short == 0 && bpu > 0 && p.tick > 0 && p.fee <= 10000 && p.blpu != 0 && p.qlpu != 0 && bpu < 1 << 64 && bpu % p.blpu as u128 == 0 && qpu % p.qlpu == 0 && p.tick % p.blpu == 0;
        let mut w = World::new();
        for x in [b'B', b'Q'] {
            // anyone may send lamports to the address of a vault before the market exists
            if r.pct(30) { prefund(&mut w, &mut r, vault_key(&key(b'M', 5_000_000 + seed % 1000), &key(x, 7))); }
        }
        let (m, out) = mk_market(&mut w, 5_000_000 + seed % 1000, p.clone(), key(b'B', 7), key(b'Q', 7), body + long - short.min(body));
        res.steps += 1;
        *res.stats.entry(format!("init_{}", if out.res.is_ok() { "ok" } else { "err" })).or_default() += 1;
        res.trace.push(format!("initialise {:?} short {} -> {:?}", p, short, out.res));
        if out.res.is_ok() != valid {
            res.viol.push(("C22", format!("initialisation with {:?} (account short by {}, long by {}) is {} but returned {:?}", p, short, long, if valid { "valid" } else { "invalid" }, out.res)));
            break;
        }
        if !valid { continue; }
        let s = snap(&w, &m);
        let d = w.get(&m.key).data;
        let bls = (bpu / p.blpu as u128) as u64;
        let qls = qpu / p.qlpu;
        let mut c = |ok: bool, what: &str| if !ok { res.viol.push(("C22", format!("{} wrong after initialisation with {:?}: {:?}", what, p, Snap { rest: vec![], ..s.clone() }))) };
        c(s.status == 2, "status");
        c(s.sizes == p.sizes, "market size");
        c(s.authority == m.creator && s.successor == m.creator && s.fee_rcpt == m.fee_rcpt, "authority, successor or fee recipient");
        c(s.bls == bls && s.qls == qls && s.tick == p.tick && s.blpu == p.blpu && s.fee == p.fee as u64, "lot sizes, tick or fee");
        c(ru64(&d, 200) == qls.wrapping_mul(p.tick), "tick size in quote atoms");
        c(rpk(&d, 48) == m.bm && rpk(&d, 80) == m.bv && rpk(&d, 128) == m.qm && rpk(&d, 160) == m.qv, "mints or vaults");
        c(d[40] == p.bdec && d[120] == p.qdec, "decimals");
        c(u32::from_le_bytes(d[312..316].try_into().unwrap()) == p.raw.unwrap_or(1), "raw base units");
        c(s.oseq == 1 && s.bids.is_empty() && s.asks.is_empty() && s.traders.is_empty() && s.collected == 0 && s.uncollected == 0, "initial market state");
        for (v, mint) in [(m.bv, m.bm), (m.qv, m.qm)] {
            let a = w.get(&v);
            c(a.owner == TOKEN && a.data.len() == 165 && rpk(&a.data, 0) == mint && rpk(&a.data, 32) == v, "vault");
        }
        // a second initialisation is refused and changes nothing
        let before = w.get(&m.key);
        let o2 = w.exec(&init_metas(&m), &init_data(&p, &key(b'E', 1)));
        if o2.res.is_ok() || w.get(&m.key) != before {
            res.viol.push(("C22", "market initialised twice".into()));
        }
        if !res.viol.is_empty() { break; }
    }
    res
}
fn decode_case(seed: u64) -> CaseResult {
    use borsh::BorshSerialize;
    let mut r = Rng(seed ^ 0x2468);
    let mut res = CaseResult { viol: vec![], trace: vec![], steps: 0, stats: BTreeMap::new() };
    for _ in 0..400 {
        let kind = r.n(3) as u8;
        let mut p = P {
            kind, side: r.n(2) as u8, price: if kind == 2 && r.pct(40) { None } else { Some(r.u() >> r.n(64)) }, base: r.u() >> r.n(64), quote: r.u() >> r.n(64), min_base: r.u() >> r.n(64), min_quote: r.u() >> r.n(64),
            stb: r.n(3) as u8, ml: if r.pct(50) { None } else { Some(r.u() >> r.n(64)) }, cid: (r.u() as u128) << 64 | r.u() as u128, reject: r.pct(50), dep: r.pct(50),
            lvs: if r.pct(50) { None } else { Some(r.u()) }, lvt: if r.pct(50) { None } else { Some(r.u()) }, silent: r.pct(50),
        };
        let cut = r.n(4);
        match (kind, cut) { (2, 1) => p.lvt = None, (2, _) => { p.lvs = None; p.lvt = None; } (_, 1) => p.silent = false, (_, 2) => { p.silent = false; p.lvt = None; } (_, 3) => { p.silent = false; p.lvt = None; p.lvs = None; } _ => {} }
        let cut = if kind == 2 { cut.min(2) } else { cut } as usize;
        let full = p.enc();
        let short = full[..full.len() - cut].to_vec();
        res.steps += 1;
        let dec = |b: &[u8]| std::panic::catch_unwind(|| phoenix::state::decode_order_packet(b)).unwrap_or(None);
        match dec(&short) {
            None => res.viol.push(("C23", format!("packet {:?} with {} trailing fields left out was refused", p, cut))),
            Some(x) => {
                if x.try_to_vec().unwrap() != full { res.viol.push(("C23", format!("packet {:?} with {} trailing fields left out decodes to {:?}", p, cut, x))); }
            }
        }
        // corrupted bytes: refused, or read as exactly those bytes (plus absent trailing fields)
        let mut b = short.clone();
        match r.n(4) {
            0 => b.truncate(r.n(b.len() as u64 + 1) as usize),
            1 => { for _ in 0..1 + r.n(3) { b.push(r.u() as u8) } }
            2 => { let i = r.n(b.len() as u64) as usize; b[i] = r.u() as u8; }
            _ => { let i = r.n(2) as usize; b[i] = r.n(6) as u8; }
        }
        if let Some(x) = dec(&b) {
            let y = x.try_to_vec().unwrap();
            if !(y.len() >= b.len() && y.len() <= b.len() + 3 && y[..b.len()] == b[..] && y[b.len()..].iter().all(|z| *z == 0)) {
                res.viol.push(("C23", format!("bytes {:?} decode to a different packet {:?}", b, x)));
            }
        }
        if !res.viol.is_empty() { break; }
    }
    *res.stats.entry("decoded".into()).or_default() += res.steps;
    res
}
pub fn case(prof: u8, seed: u64) -> CaseResult {
    match std::panic::catch_unwind(|| case_inner(prof, seed)) {
        Ok(x) => x,
        Err(e) => CaseResult { viol: vec![("HARNESS", format!("{:?} {:?}", e.downcast_ref::<String>(), e.downcast_ref::<&str>()))], trace: vec![], steps: 0, stats: BTreeMap::new() },
    }
}
fn case_inner(prof: u8, seed: u64) -> CaseResult {
    match prof {
        2 => init_case(seed),
        3 => decode_case(seed),
        _ => history(prof, seed),
    }
}

//! Market environment: set-up, instruction encoding (written out by hand, independent of the crate's
//! builders), state snapshots and event-log decoding.
use crate::world::*;
use phoenix::program::{load_with_dispatch, MarketSizeParams};
use phoenix::quantities::WrapperU64;
use phoenix::state::Side;
use solana_program::{instruction::AccountMeta, pubkey::Pubkey};
use std::collections::BTreeMap;

pub fn key(tag: u8, n: u64) -> Pubkey {
    let mut b = [7u8; 32];
    b[0] = tag;
    b[1..9].copy_from_slice(&n.to_le_bytes());
    // spread so that key order is not the creation order
    b[31] = (n as u8).wrapping_mul(97).wrapping_add(tag);
    b.swap(0, 31);
    Pubkey::new_from_array(b)
}
pub fn log_auth() -> Pubkey {
    thread_local! { static K: Pubkey = Pubkey::find_program_address(&[b"log"], &phoenix::ID).0; }
    K.with(|k| *k)
}
pub fn seat_key(market: &Pubkey, t: &Pubkey) -> Pubkey {
    thread_local! { static C: std::cell::RefCell<BTreeMap<(Pubkey,Pubkey),Pubkey>> = Default::default(); }
    C.with(|c| *c.borrow_mut().entry((*market, *t)).or_insert_with(|| Pubkey::find_program_address(&[b"seat", market.as_ref(), t.as_ref()], &phoenix::ID).0))
}
pub fn vault_key(market: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"vault", market.as_ref(), mint.as_ref()], &phoenix::ID).0
}

#[derive(Clone, Debug)]
pub struct Params {
    pub sizes: (u64, u64, u64),
    pub qlpu: u64,
    pub tick: u64,
    pub blpu: u64,
    pub fee: u16,
    pub raw: Option<u32>,
    pub bdec: u8,
    pub qdec: u8,
}
#[derive(Clone, Debug)]
pub struct Mkt {
    pub key: Pubkey,
    pub bm: Pubkey,
    pub qm: Pubkey,
    pub bv: Pubkey,
    pub qv: Pubkey,
    pub creator: Pubkey,
    pub fee_rcpt: Pubkey,
    pub p: Params,
}
#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub kind: u8,
    pub side: u8,
    pub price: Option<u64>,
    pub base: u64,
    pub quote: u64,
    pub min_base: u64,
    pub min_quote: u64,
    pub stb: u8,
    pub ml: Option<u64>,
    pub cid: u128,
    pub reject: bool,
    pub dep: bool,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
    pub silent: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cond {
    pub price: u64,
    pub size: u64,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Swap { t: usize, ff: bool, p: P },
    Limit { t: usize, ff: bool, p: P },
    Multi { t: usize, ff: bool, bids: Vec<Cond>, asks: Vec<Cond>, cid: Option<u128>, beh: u8 },
    Reduce { t: usize, ww: bool, side: u8, price: u64, seq: u64, size: u64 },
    CancelAll { t: usize, ww: bool },
    CancelUpTo { t: usize, ww: bool, side: u8, lim: Option<u64>, search: Option<u32>, cancel: Option<u32> },
    CancelById { t: usize, ww: bool, ids: Vec<(u8, u64, u64)> },
    Withdraw { t: usize, q: Option<u64>, b: Option<u64> },
    Deposit { t: usize, q: u64, b: u64 },
    ReqSeat { t: usize },
    ReqSeatAuth { auth: Pubkey, t: usize },
    SeatStatus { auth: Pubkey, t: usize, st: u8 },
    Evict { auth: Pubkey, t: usize },
    ForceCancel { auth: Pubkey, t: usize, side: u8, lim: Option<u64>, search: Option<u32>, cancel: Option<u32> },
    CollectFees { signer: Pubkey },
    ChangeFee { auth: Pubkey, new: Pubkey, prev: Option<(Pubkey, bool)> },
    NameSucc { auth: Pubkey, new: Pubkey },
    Claim { signer: Pubkey },
    Status { auth: Pubkey, st: u8, recv: Option<Pubkey> },
    Log { auth: Pubkey, signed: bool },
    Time { slots: u64, secs: u64 },
}
pub fn o64(v: &mut Vec<u8>, x: Option<u64>) {
    match x {
        None => v.push(0),
        Some(y) => {
            v.push(1);
            v.extend_from_slice(&y.to_le_bytes())
        }
    }
}
fn o32(v: &mut Vec<u8>, x: Option<u32>) {
    match x {
        None => v.push(0),
        Some(y) => {
            v.push(1);
            v.extend_from_slice(&y.to_le_bytes())
        }
    }
}
impl P {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![self.kind, self.side];
        match self.kind {
            0 => {
                v.extend_from_slice(&self.price.unwrap_or(0).to_le_bytes());
                v.extend_from_slice(&self.base.to_le_bytes());
                v.extend_from_slice(&self.cid.to_le_bytes());
                v.push(self.reject as u8);
                v.push(self.dep as u8);
                o64(&mut v, self.lvs);
                o64(&mut v, self.lvt);
                v.push(self.silent as u8);
            }
            1 => {
                v.extend_from_slice(&self.price.unwrap_or(0).to_le_bytes());
                v.extend_from_slice(&self.base.to_le_bytes());
                v.push(self.stb);
                o64(&mut v, self.ml);
                v.extend_from_slice(&self.cid.to_le_bytes());
                v.push(self.dep as u8);
                o64(&mut v, self.lvs);
                o64(&mut v, self.lvt);
                v.push(self.silent as u8);
            }
            _ => {
                o64(&mut v, self.price);
                for x in [self.base, self.quote, self.min_base, self.min_quote] {
                    v.extend_from_slice(&x.to_le_bytes());
                }
                v.push(self.stb);
                o64(&mut v, self.ml);
                v.extend_from_slice(&self.cid.to_le_bytes());
                v.push(self.dep as u8);
                o64(&mut v, self.lvs);
                o64(&mut v, self.lvt);
            }
        }
        v
    }
}
fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn s(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}

#[derive(Clone)]
pub struct Env {
    pub w: World,
    pub m: Mkt,
    pub m2: Mkt,
    pub traders: Vec<Pubkey>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ord_ {
    pub price: u64,
    pub seq: u64,
    pub trader: Pubkey,
    pub lots: u64,
    pub slot: u64,
    pub ts: u64,
}
impl Ord_ {
    pub fn expired(&self, slot: u64, ts: u64) -> bool {
        (self.slot != 0 && self.slot < slot) || (self.ts != 0 && self.ts < ts)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct TS {
    pub ql: u64,
    pub qf: u64,
    pub bl: u64,
    pub bf: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub exists: bool,
    pub status: u64,
    pub sizes: (u64, u64, u64),
    pub authority: Pubkey,
    pub successor: Pubkey,
    pub fee_rcpt: Pubkey,
    pub mseq: u64,
    pub oseq: u64,
    pub bids: Vec<Ord_>,
    pub asks: Vec<Ord_>,
    pub traders: BTreeMap<Pubkey, TS>,
    pub collected: u64,
    pub uncollected: u64,
    pub qls: u64,
    pub bls: u64,
    pub tick: u64,
    pub blpu: u64,
    pub fee: u64,
    pub vq: u64,
    pub vb: u64,
    pub rest: Vec<u8>, // header bytes that no instruction may change
}
impl Snap {
    pub fn book(&self, side: u8) -> &Vec<Ord_> {
        if side == 0 {
            &self.bids
        } else {
            &self.asks
        }
    }
    pub fn val(&self, price: u64, lots: u64) -> u128 {
        (price as u128 * self.tick as u128).saturating_mul(lots as u128) / self.blpu as u128
    }
    pub fn ts(&self, t: &Pubkey) -> TS {
        self.traders.get(t).copied().unwrap_or_default()
    }
}
pub fn ru64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn rpk(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new(&d[o..o + 32])
}
pub fn size_params(d: &[u8]) -> MarketSizeParams {
    MarketSizeParams { bids_size: ru64(d, 16), asks_size: ru64(d, 24), num_seats: ru64(d, 32) }
}
/// Better priority first (price, then age); ages are recovered from the sequence numbers.
pub fn prio(side: u8, a: &Ord_, b: &Ord_) -> std::cmp::Ordering {
    if side == 0 {
        b.price.cmp(&a.price).then((!a.seq).cmp(&!b.seq))
    } else {
        a.price.cmp(&b.price).then(a.seq.cmp(&b.seq))
    }
}

impl Env {
    pub fn base_acct(&self, t: &Pubkey) -> Pubkey {
        Self::ata(t, &self.m.bm)
    }
    pub fn quote_acct(&self, t: &Pubkey) -> Pubkey {
        Self::ata(t, &self.m.qm)
    }
    pub fn ata(t: &Pubkey, mint: &Pubkey) -> Pubkey {
        let mut b = t.to_bytes();
        let m = mint.to_bytes();
        for i in 0..32 {
            b[i] = b[i].wrapping_mul(3) ^ m[i].wrapping_add(i as u8);
        }
        Pubkey::new_from_array(b)
    }
    pub fn snap(&self) -> Snap {
        snap(&self.w, &self.m)
    }
    pub fn vault_metas(&self, t: &Pubkey) -> Vec<AccountMeta> {
        vec![w(self.base_acct(t)), w(self.quote_acct(t)), w(self.m.bv), w(self.m.qv), r(TOKEN)]
    }
    pub fn head(&self, signer: Pubkey) -> Vec<AccountMeta> {
        vec![r(phoenix::ID), r(log_auth()), w(self.m.key), s(signer)]
    }
    pub fn build(&self, op: &Op) -> (Vec<AccountMeta>, Vec<u8>) {
        let tr = |i: &usize| self.traders[*i];
        let seat = |t: &Pubkey| r(seat_key(&self.m.key, t));
        let mut d: Vec<u8> = vec![];
        let metas;
        match op {
            Op::Swap { t, ff, p } => {
                let t = tr(t);
                d.push(*ff as u8);
                d.extend(p.enc());
                let mut m = self.head(t);
                if *ff {
                    m.push(seat(&t))
                } else {
                    m.extend(self.vault_metas(&t))
                }
                metas = m;
            }
            Op::Limit { t, ff, p } => {
                let t = tr(t);
                d.push(2 + *ff as u8);
                d.extend(p.enc());
                let mut m = self.head(t);
                m.push(seat(&t));
                if !*ff {
                    m.extend(self.vault_metas(&t))
                }
                metas = m;
            }
            Op::Multi { t, ff, bids, asks, cid, beh } => {
                let t = tr(t);
                d.push(16 + *ff as u8);
                for v in [bids, asks] {
                    d.extend_from_slice(&(v.len() as u32).to_le_bytes());
                    for c in v {
                        d.extend_from_slice(&c.price.to_le_bytes());
                        d.extend_from_slice(&c.size.to_le_bytes());
                        o64(&mut d, c.lvs);
                        o64(&mut d, c.lvt);
                    }
                }
                match cid {
                    None => d.push(0),
                    Some(c) => {
                        d.push(1);
                        d.extend_from_slice(&c.to_le_bytes())
                    }
                }
                d.push(*beh);
                let mut m = self.head(t);
                m.push(seat(&t));
                if !*ff {
                    m.extend(self.vault_metas(&t))
                }
                metas = m;
            }
            Op::Reduce { t, ww, side, price, seq, size } => {
                let t = tr(t);
                d.push(4 + !*ww as u8);
                d.push(*side);
                for x in [price, seq, size] {
                    d.extend_from_slice(&x.to_le_bytes());
                }
                let mut m = self.head(t);
                if *ww {
                    m.extend(self.vault_metas(&t))
                } else {
                    m[3] = ws(t)
                }
                metas = m;
            }
            Op::CancelAll { t, ww } => {
                let t = tr(t);
                d.push(6 + !*ww as u8);
                let mut m = self.head(t);
                if *ww {
                    m.extend(self.vault_metas(&t))
                }
                metas = m;
            }
            Op::CancelUpTo { t, ww, side, lim, search, cancel } => {
                let t = tr(t);
                d.push(8 + !*ww as u8);
                d.push(*side);
                o64(&mut d, *lim);
                o32(&mut d, *search);
                o32(&mut d, *cancel);
                let mut m = self.head(t);
                if *ww {
                    m.extend(self.vault_metas(&t))
                }
                metas = m;
            }
            Op::CancelById { t, ww, ids } => {
                let t = tr(t);
                d.push(10 + !*ww as u8);
                d.extend_from_slice(&(ids.len() as u32).to_le_bytes());
                for (s, p, q) in ids {
                    d.push(*s);
                    d.extend_from_slice(&p.to_le_bytes());
                    d.extend_from_slice(&q.to_le_bytes());
                }
                let mut m = self.head(t);
                if *ww {
                    m.extend(self.vault_metas(&t))
                }
                metas = m;
            }
            Op::Withdraw { t, q, b } => {
                let t = tr(t);
                d.push(12);
                o64(&mut d, *q);
                o64(&mut d, *b);
                let mut m = self.head(t);
                m.extend(self.vault_metas(&t));
                metas = m;
            }
            Op::Deposit { t, q, b } => {
                let t = tr(t);
                d.push(13);
                d.extend_from_slice(&q.to_le_bytes());
                d.extend_from_slice(&b.to_le_bytes());
                let mut m = self.head(t);
                m.push(seat(&t));
                m.extend(self.vault_metas(&t));
                metas = m;
            }
            Op::ReqSeat { t } => {
                let t = tr(t);
                d.push(14);
                let mut m = self.head(t);
                m[3] = ws(t);
                m.push(w(seat_key(&self.m.key, &t)));
                m.push(r(SYS));
                metas = m;
            }
            Op::ReqSeatAuth { auth, t } => {
                let t = tr(t);
                d.push(105);
                let mut m = self.head(*auth);
                m.push(ws(self.m.creator));
                m.push(r(t));
                m.push(w(seat_key(&self.m.key, &t)));
                m.push(r(SYS));
                metas = m;
            }
            Op::SeatStatus { auth, t, st } => {
                let t = tr(t);
                d.push(104);
                d.push(*st);
                let mut m = self.head(*auth);
                m.push(w(seat_key(&self.m.key, &t)));
                metas = m;
            }
            Op::Evict { auth, t } => {
                let t = tr(t);
                d.push(106);
                let mut m = self.head(*auth);
                m.push(r(t));
                m.push(seat(&t));
                m.extend(self.vault_metas(&t));
                metas = m;
            }
            Op::ForceCancel { auth, t, side, lim, search, cancel } => {
                let t = tr(t);
                d.push(107);
                d.push(*side);
                o64(&mut d, *lim);
                o32(&mut d, *search);
                o32(&mut d, *cancel);
                let mut m = self.head(*auth);
                m.push(r(t));
                m.push(seat(&t));
                m.extend(self.vault_metas(&t));
                metas = m;
            }
            Op::CollectFees { signer } => {
                d.push(108);
                let rc = self.snap_header_pk(240);
                let mut m = self.head(*signer);
                m.push(w(Self::ata(&rc, &self.m.qm)));
                m.push(w(self.m.qv));
                m.push(r(TOKEN));
                metas = m;
            }
            Op::ChangeFee { auth, new, prev } => {
                d.push(109);
                let mut m = self.head(*auth);
                m.push(r(*new));
                if let Some((k, sg)) = prev {
                    m.push(if *sg { s(*k) } else { r(*k) })
                }
                metas = m;
            }
            Op::NameSucc { auth, new } => {
                d.push(102);
                d.extend_from_slice(new.as_ref());
                metas = self.head(*auth);
            }
            Op::Claim { signer } => {
                d.push(101);
                metas = self.head(*signer);
            }
            Op::Status { auth, st, recv } => {
                d.push(103);
                d.push(*st);
                let mut m = self.head(*auth);
                m[3] = ws(*auth);
                if let Some(k) = recv {
                    m.push(w(*k))
                }
                metas = m;
            }
            Op::Log { auth, signed } => {
                d.push(15);
                metas = vec![if *signed { s(*auth) } else { r(*auth) }];
            }
            Op::Time { .. } => {
                metas = vec![];
            }
        }
        (metas, d)
    }
    pub fn snap_header_pk(&self, o: usize) -> Pubkey {
        let a = self.w.get(&self.m.key);
        if a.data.len() < 576 {
            return SYS;
        }
        rpk(&a.data, o)
    }
}

pub fn snap(wd: &World, m: &Mkt) -> Snap {
    let a = wd.get(&m.key);
    if a.data.len() < 576 {
        return Snap {
            exists: false, status: 0, sizes: (0, 0, 0), authority: SYS, successor: SYS, fee_rcpt: SYS, mseq: 0, oseq: 0,
            bids: vec![], asks: vec![], traders: BTreeMap::new(), collected: 0, uncollected: 0, qls: 1, bls: 1, tick: 1,
            blpu: 1, fee: 0, vq: wd.token_balance(&m.qv), vb: wd.token_balance(&m.bv), rest: vec![],
        };
    }
    let d = &a.data;
    let sp = size_params(d);
    // a u64-aligned copy of the market body
    let body = &d[576..];
    let mut al = vec![0u64; body.len() / 8 + 1];
    let bytes: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(al.as_mut_ptr() as *mut u8, body.len()) };
    bytes.copy_from_slice(body);
    let mk = load_with_dispatch(&sp, bytes).unwrap().inner;
    let rd = |s: Side| -> Vec<Ord_> {
        mk.get_book(s)
            .iter()
            .map(|(id, o)| Ord_ {
                price: id.price_in_ticks.as_u64(),
                seq: id.order_sequence_number,
                trader: mk.get_trader_id_from_index(o.trader_index as u32),
                lots: o.num_base_lots.as_u64(),
                slot: o.last_valid_slot,
                ts: o.last_valid_unix_timestamp_in_seconds,
            })
            .collect()
    };
    let mut rest = d[16..208].to_vec();
    rest.extend_from_slice(&d[312..576]);
    rest.extend_from_slice(&d[0..8]);
    Snap {
        exists: true,
        status: ru64(d, 8),
        sizes: (sp.bids_size, sp.asks_size, sp.num_seats),
        authority: rpk(d, 208),
        fee_rcpt: rpk(d, 240),
        mseq: ru64(d, 272),
        successor: rpk(d, 280),
        oseq: mk.get_sequence_number(),
        bids: rd(Side::Bid),
        asks: rd(Side::Ask),
        traders: mk
            .get_registered_traders()
            .iter()
            .map(|(k, s)| {
                (*k, TS { ql: s.quote_lots_locked.as_u64(), qf: s.quote_lots_free.as_u64(), bl: s.base_lots_locked.as_u64(), bf: s.base_lots_free.as_u64() })
            })
            .collect(),
        collected: mk.get_collected_fee_amount().as_u64(),
        uncollected: mk.get_uncollected_fee_amount().as_u64(),
        qls: ru64(d, 192),
        bls: ru64(d, 112),
        tick: mk.get_tick_size().as_u64(),
        blpu: mk.get_base_lots_per_base_unit().as_u64(),
        fee: mk.get_taker_fee_bps(),
        vq: wd.token_balance(&m.qv),
        vb: wd.token_balance(&m.bv),
        rest,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill { maker: Pubkey, seq: u64, price: u64, filled: u64, remaining: u64 },
    Place { seq: u64, cid: u128, price: u64, lots: u64 },
    Reduce { seq: u64, price: u64, removed: u64, remaining: u64 },
    Evict { maker: Pubkey, seq: u64, price: u64, lots: u64 },
    Summary { cid: u128, base: u64, quote: u64, fee: u64 },
    Fee { q: u64 },
    Tif { seq: u64, slot: u64, ts: u64 },
    Expired { maker: Pubkey, seq: u64, price: u64, lots: u64 },
}
#[derive(Clone, Debug)]
pub struct Batch {
    pub instr: u8,
    pub seq: u64,
    pub ts: i64,
    pub slot: u64,
    pub market: Pubkey,
    pub signer: Pubkey,
    pub total: u16,
    pub evs: Vec<(u16, Ev)>,
    pub len: usize,
}
pub fn decode_batch(b: &[u8]) -> Result<Batch, String> {
    let mut o = 0usize;
    macro_rules! take {
        ($n:expr) => {{
            if o + $n > b.len() {
                return Err("log batch truncated".to_string());
            }
            let x = &b[o..o + $n];
            o += $n;
            x
        }};
    }
    macro_rules! t64 {
        () => {
            u64::from_le_bytes(take!(8).try_into().unwrap())
        };
    }
    macro_rules! t16 {
        () => {
            u16::from_le_bytes(take!(2).try_into().unwrap())
        };
    }
    macro_rules! t128 {
        () => {
            u128::from_le_bytes(take!(16).try_into().unwrap())
        };
    }
    macro_rules! tpk {
        () => {
            Pubkey::new(take!(32))
        };
    }
    if take!(1)[0] != 15 || take!(1)[0] != 1 {
        return Err("log batch has no header".into());
    }
    let mut ba = Batch { instr: take!(1)[0], seq: t64!(), ts: t64!() as i64, slot: t64!(), market: tpk!(), signer: tpk!(), total: t16!(), evs: vec![], len: b.len() };
    while o < b.len() {
        let tag = take!(1)[0];
        let ix = t16!();
        let e = match tag {
            2 => Ev::Fill { maker: tpk!(), seq: t64!(), price: t64!(), filled: t64!(), remaining: t64!() },
            3 => Ev::Place { seq: t64!(), cid: t128!(), price: t64!(), lots: t64!() },
            4 => Ev::Reduce { seq: t64!(), price: t64!(), removed: t64!(), remaining: t64!() },
            5 => Ev::Evict { maker: tpk!(), seq: t64!(), price: t64!(), lots: t64!() },
            6 => Ev::Summary { cid: t128!(), base: t64!(), quote: t64!(), fee: t64!() },
            7 => Ev::Fee { q: t64!() },
            8 => Ev::Tif { seq: t64!(), slot: t64!(), ts: t64!() },
            9 => Ev::Expired { maker: tpk!(), seq: t64!(), price: t64!(), lots: t64!() },
            _ => return Err(format!("unknown event tag {}", tag)),
        };
        ba.evs.push((ix, e));
    }
    Ok(ba)
}
pub fn init_data(p: &Params, fee_rcpt: &Pubkey) -> Vec<u8> {
    let mut d = vec![100u8];
    for x in [p.sizes.0, p.sizes.1, p.sizes.2, p.qlpu, p.tick, p.blpu] {
        d.extend_from_slice(&x.to_le_bytes());
    }
    d.extend_from_slice(&p.fee.to_le_bytes());
    d.extend_from_slice(fee_rcpt.as_ref());
    match p.raw {
        None => d.push(0),
        Some(x) => {
            d.push(1);
            d.extend_from_slice(&x.to_le_bytes())
        }
    }
    d
}
pub fn mint_acct(dec: u8) -> Acct {
    let mut d = vec![0u8; 82];
    d[44] = dec;
    d[45] = 1;
    Acct { owner: TOKEN, lamports: 1_461_600, data: d }
}
/// Byte size of the market body for the size configurations the program lists; the harness knows them
/// from the layout (header 64*? etc. is asked of the crate).
pub fn body_size(s: (u64, u64, u64)) -> Option<usize> {
    phoenix::program::get_market_size(&MarketSizeParams { bids_size: s.0, asks_size: s.1, num_seats: s.2 }).ok()
}
pub fn init_metas(m: &Mkt) -> Vec<AccountMeta> {
    vec![r(phoenix::ID), r(log_auth()), w(m.key), ws(m.creator), r(m.bm), r(m.qm), w(m.bv), w(m.qv), r(SYS), r(TOKEN)]
}
pub fn mk_market(wd: &mut World, n: u64, p: Params, bm: Pubkey, qm: Pubkey, body: usize) -> (Mkt, Outcome) {
    let kk = key(b'M', n);
    let creator = key(b'C', n);
    let fee_rcpt = key(b'F', n);
    let m = Mkt { key: kk, bm, qm, bv: vault_key(&kk, &bm), qv: vault_key(&kk, &qm), creator, fee_rcpt, p };
    wd.accts.insert(bm, mint_acct(m.p.bdec));
    wd.accts.insert(qm, mint_acct(m.p.qdec));
    wd.accts.insert(creator, Acct { owner: SYS, lamports: 1 << 50, data: vec![] });
    wd.accts.insert(fee_rcpt, Acct { owner: SYS, lamports: 1 << 40, data: vec![] });
    wd.accts.insert(kk, Acct { owner: phoenix::ID, lamports: 1 << 35, data: vec![0u8; 576 + body] });
    wd.add_token(Env::ata(&fee_rcpt, &qm), qm, fee_rcpt, 0);
    let out = wd.exec(&init_metas(&m), &init_data(&m.p, &fee_rcpt));
    (m, out)
}

//! Property oracles: each compares observable state before and after one executed instruction.
use crate::env::*;
use crate::world::*;
use solana_program::{instruction::AccountMeta, pubkey::Pubkey};
use std::collections::BTreeMap;

pub type V = Vec<(&'static str, String)>;
macro_rules! chk {
    ($v:expr, $p:expr, $c:expr, $($a:tt)*) => { if !($c) { $v.push(($p, format!($($a)*))); } };
}
pub struct Step<'a> {
    pub env: &'a Env, // world after
    pub op: &'a Op,
    pub metas: &'a [AccountMeta],
    pub data: &'a [u8],
    pub tampered: bool,
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub out: &'a Outcome,
    pub pre_w: &'a World,
    pub slot: u64,
    pub ts: u64,
}
fn seat_status(w: &World, market: &Pubkey, t: &Pubkey) -> Option<u64> {
    let a = w.accts.get(&seat_key(market, t))?;
    if a.owner != phoenix::ID || a.data.len() < 80 {
        return None;
    }
    Some(ru64(&a.data, 72))
}
pub fn fees(qv: u128, bps: u64) -> u128 {
    (qv * bps as u128 + 9999) / 10000
}
/// State invariants of a snapshot.
pub fn invariants(v: &mut V, s: &Snap, slot: u64, ts: u64) {
    if !s.exists {
        return;
    }
    let (mut q, mut b) = (s.uncollected as u128, 0u128);
    for t in s.traders.values() {
        q += t.ql as u128 + t.qf as u128;
        b += t.bl as u128 + t.bf as u128;
    }
    chk!(v, "C01", q * s.qls as u128 == s.vq as u128, "quote vault holds {} atoms, traders and fees are owed {} lots of {}", s.vq, q, s.qls);
    chk!(v, "C01", b * s.bls as u128 == s.vb as u128, "base vault holds {} atoms, traders are owed {} lots of {}", s.vb, b, s.bls);
    let mut lq: BTreeMap<Pubkey, u128> = BTreeMap::new();
    let mut lb: BTreeMap<Pubkey, u128> = BTreeMap::new();
    for o in &s.bids {
        *lq.entry(o.trader).or_default() += s.val(o.price, o.lots);
        chk!(v, "C02", o.lots > 0, "empty resting bid {:?}", o);
        chk!(v, "C11", (o.seq >> 63) == 1 && !o.seq < s.oseq, "bid id {:x} not issued (next {})", o.seq, s.oseq);
    }
    for o in &s.asks {
        *lb.entry(o.trader).or_default() += o.lots as u128;
        chk!(v, "C02", o.lots > 0, "empty resting ask {:?}", o);
        chk!(v, "C11", (o.seq >> 63) == 0 && o.seq < s.oseq, "ask id {:x} not issued (next {})", o.seq, s.oseq);
    }
    for (k, t) in &s.traders {
        chk!(v, "C02", lq.remove(k).unwrap_or(0) == t.ql as u128, "trader {} locked quote {} differs from its bids' value", k, t.ql);
        chk!(v, "C02", lb.remove(k).unwrap_or(0) == t.bl as u128, "trader {} locked base {} differs from its asks", k, t.bl);
    }
    chk!(v, "C02", lq.is_empty() && lb.is_empty(), "resting orders of unregistered traders");
    for side in [0u8, 1] {
        let bk = s.book(side);
        for w in bk.windows(2) {
            chk!(v, "C11", prio(side, &w[0], &w[1]) == std::cmp::Ordering::Less, "book side {} not in price-time order: {:?} before {:?}", side, w[0], w[1]);
        }
    }
    let mut seqs: Vec<u64> = s.bids.iter().map(|o| !o.seq).chain(s.asks.iter().map(|o| o.seq)).collect();
    let n = seqs.len();
    seqs.sort();
    seqs.dedup();
    chk!(v, "C11", seqs.len() == n, "sequence number used by two resting orders");
    let bb = s.bids.iter().filter(|o| !o.expired(slot, ts)).map(|o| o.price).max();
    let ba = s.asks.iter().filter(|o| !o.expired(slot, ts)).map(|o| o.price).min();
    if let (Some(x), Some(y)) = (bb, ba) {
        chk!(v, "C04", x < y, "book is crossed: bid {} >= ask {}", x, y);
    }
    chk!(v, "C15", s.bids.len() as u64 <= s.sizes.0 && s.asks.len() as u64 <= s.sizes.1, "book over capacity");
}
fn shadow_find(b: &[Ord_], seq: u64) -> Option<usize> {
    b.iter().position(|o| o.seq == seq)
}
struct Placement {
    side: u8,
    kind: u8,
    price: Option<u64>, // requested limit
    base: u64,          // base budget, 0 = none
    quote: u64,
    min_base: u64,
    min_quote: u64,
    stb: u8,
    ml: Option<u64>,
    cid: u128,
    reject: bool,
    lvs: Option<u64>,
    lvt: Option<u64>,
}
fn pl(p: &P) -> Placement {
    Placement {
        side: p.side, kind: p.kind, price: p.price, base: p.base, quote: if p.kind == 2 { p.quote } else { 0 },
        min_base: if p.kind == 2 { p.min_base } else { 0 }, min_quote: if p.kind == 2 { p.min_quote } else { 0 },
        stb: p.stb, ml: if p.kind == 0 { None } else { p.ml }, cid: p.cid, reject: p.reject, lvs: p.lvs, lvt: p.lvt,
    }
}
fn best(b: &[Ord_], side: u8, slot: u64, ts: u64) -> Option<Ord_> {
    b.iter().filter(|o| !o.expired(slot, ts) && o.lots > 0).min_by(|a, c| prio(side, a, c)).cloned()
}
/// Follows the event log of one placement over shadow books (bids, asks), checking every event, and
/// returns (quote matched, base matched, fee, quote posted, base posted, quote/base freed by self-cancels).
#[derive(Default, Debug)]
struct Totals {
    qv: u128,
    base: u128,
    fee: u128,
    post_q: u128,
    post_b: u128,
    freed_q: u128,
    freed_b: u128,
    posted: Option<Ord_>,
    dec: u128,
    dec_q: u128,
}
fn follow(v: &mut V, st: &Step, taker: &Pubkey, p: &Placement, books: &mut [Vec<Ord_>; 2], oseq: &mut u64, evs: &[Ev], caps: [u64; 2]) -> (Totals, usize) {
    let s = st.pre;
    let own = p.side as usize;
    let opp = 1 - own;
    let mut t = Totals::default();
    let mut i = 0;
    let mut matches = 0u64;
    let limit_ok = |pr: u64| match p.price {
        None => true,
        Some(l) => if p.side == 0 { pr <= l } else { pr >= l },
    };
    let exp_packet = p.lvs.map_or(false, |x| x < st.slot) || p.lvt.map_or(false, |x| x < st.ts);
    let mut cross_pre = best(&books[opp], opp as u8, st.slot, st.ts).filter(|o| limit_ok(o.price)).map(|o| o.price);
    let mut placed_now = false;
    let mut summary = false;
    while i < evs.len() {
        match &evs[i] {
            Ev::Expired { maker, seq, price, lots } => {
                match shadow_find(&books[opp], *seq) {
                    None => v.push(("C12", format!("expired-order event for unknown order {:x}", seq))),
                    Some(k) => {
                        let o = books[opp].remove(k);
                        chk!(v, "C07", o.expired(st.slot, st.ts), "order removed as expired but it is live: {:?} at slot {} ts {}", o, st.slot, st.ts);
                        chk!(v, "C12", o.trader == *maker && o.price == *price && o.lots == *lots, "expired-order event does not describe the order {:?}: {:?}", o, evs[i]);
                        if o.trader == *taker {
                            if opp == 0 { t.freed_q += s.val(o.price, o.lots) } else { t.freed_b += o.lots as u128 }
                        }
                        matches += 1;
                        chk!(v, "C12", limit_ok(o.price) , "expired order beyond the limit was removed: {:?}", o);
                    }
                }
            }
            Ev::Reduce { seq, price, removed, remaining } => {
                match shadow_find(&books[opp], *seq) {
                    None => v.push(("C12", format!("reduce event for unknown order {:x}", seq))),
                    Some(k) => {
                        let o = books[opp][k].clone();
                        chk!(v, "C09", o.trader == *taker, "order of {} reduced by {}: {:?}", o.trader, taker, o);
                        chk!(v, "C12", o.price == *price && removed.checked_add(*remaining) == Some(o.lots), "reduce event does not describe the order {:?}: {:?}", o, evs[i]);
                        chk!(v, "C03", best(&books[opp], opp as u8, st.slot, st.ts).map(|b| b.seq) == Some(*seq) && limit_ok(o.price), "self-trade handled out of priority: {:?}", o);
                        chk!(v, "C06", p.stb != 0, "self trade with Abort behaviour was not rejected");
                        if p.stb == 1 { chk!(v, "C06", *remaining == 0, "CancelProvide left {} lots of the maker's order", remaining); }
                        if p.stb == 2 {
                            t.dec += *removed as u128;
                            t.dec_q += s.val(o.price, *removed);
                            // as much as both the resting order and the remaining budget allow
                            let rem = if p.base > 0 { (p.base as u128).saturating_sub(t.base + t.dec - *removed as u128) } else { u128::MAX };
                            // (the quote budget of an order without one is u64::MAX quote lot units, which bounds trades at extreme prices)
                            let plain = p.quote == 0 && o.price < 1 << 40 && t.qv + t.dec_q + s.val(o.price, o.lots) < 1 << 40;
                            chk!(v, "C06", *removed as u128 <= rem.min(o.lots as u128), "DecrementTake removed {} of {} lots with {} lots of budget left", removed, o.lots, rem);
                            if plain { chk!(v, "C06", *removed as u128 == rem.min(o.lots as u128), "DecrementTake removed {} of {} lots with {} lots of budget left", removed, o.lots, rem); }
                            chk!(v, "C06", *removed > 0 || !plain, "DecrementTake removed nothing");
                        }
                        if opp == 0 { t.freed_q += s.val(o.price, *removed) } else { t.freed_b += *removed as u128 }
                        books[opp][k].lots = *remaining;
                        if *remaining == 0 { books[opp].remove(k); }
                        matches += 1;
                    }
                }
            }
            Ev::Fill { maker, seq, price, filled, remaining } => {
                chk!(v, "C04", p.kind != 0, "post-only order produced a fill");
                chk!(v, "C07", !exp_packet, "expired order packet produced a fill");
                chk!(v, "C16", s.status == 1, "fill while market status is {}", s.status);
                chk!(v, "C06", maker != taker, "self trade filled");
                match shadow_find(&books[opp], *seq) {
                    None => v.push(("C12", format!("fill event for unknown order {:x}", seq))),
                    Some(k) => {
                        let o = books[opp][k].clone();
                        chk!(v, "C12", o.trader == *maker && filled.checked_add(*remaining) == Some(o.lots) , "fill event does not describe the order {:?}: {:?}", o, evs[i]);
                        chk!(v, "C03", o.price == *price, "fill price {} differs from the maker's {}", price, o.price);
                        chk!(v, "C03", limit_ok(*price), "fill at {} beyond the limit {:?}", price, p.price);
                        chk!(v, "C06", o.trader != *taker, "self trade filled");
                        chk!(v, "C07", !o.expired(st.slot, st.ts), "expired order filled: {:?}", o);
                        if !o.expired(st.slot, st.ts) {
                            let b = best(&books[opp], opp as u8, st.slot, st.ts);
                            chk!(v, "C03", b.as_ref().map(|b| b.seq) == Some(*seq), "filled {:?} ahead of {:?}", o, b);
                        }
                        chk!(v, "C03", *filled > 0, "empty fill");
                        t.qv += s.val(*price, *filled);
                        t.base += *filled as u128;
                        books[opp][k].lots = *remaining;
                        if *remaining == 0 { books[opp].remove(k); }
                        matches += 1;
                    }
                }
            }
            Ev::Summary { cid, base, quote, fee } => {
                summary = true;
                t.fee = fees(t.qv, s.fee);
                chk!(v, "C05", *fee as u128 == t.fee, "fee {} charged on {} quote lots at {} bps, expected {}", fee, t.qv, s.fee, t.fee);
                let want = if p.side == 0 { t.qv + t.fee } else { t.qv.wrapping_sub(t.fee) };
                chk!(v, "C05", *quote as u128 == want, "fill summary reports {} quote lots, fills and fee give {}", quote, want);
                chk!(v, "C12", *base as u128 == t.base && *cid == p.cid, "fill summary {:?} does not match fills ({} lots)", evs[i], t.base);
                chk!(v, "C08", p.min_base as u128 <= t.base && p.min_quote as u128 <= want, "IOC filled {} base / {} quote lots, below its minimum {}/{}", t.base, want, p.min_base, p.min_quote);
                if p.quote > 0 {
                    chk!(v, "C05", want <= p.quote as u128, "order with quote budget {} traded {} quote lots", p.quote, want);
                }
                if p.kind == 2 { i += 1; break; }
            }
            Ev::Evict { maker, seq, price, lots } => {
                chk!(v, "C15", books[own].len() as u64 == caps[own], "eviction although the book has room");
                match shadow_find(&books[own], *seq) {
                    None => v.push(("C12", format!("evict event for unknown order {:x}", seq))),
                    Some(k) => {
                        let o = books[own].remove(k);
                        chk!(v, "C12", o.trader == *maker && o.price == *price && o.lots == *lots, "evict event does not describe {:?}: {:?}", o, evs[i]);
                        chk!(v, "C15", books[own].iter().all(|x| prio(own as u8, x, &o) == std::cmp::Ordering::Less), "evicted order {:?} is not the least aggressive", o);
                        if o.trader == *taker { if own == 0 { t.freed_q += s.val(o.price, o.lots) } else { t.freed_b += o.lots as u128 } }
                        // the placed order must be strictly better priced
                        if let Some(Ev::Place { price: pp, .. }) = evs.get(i + 1) {
                            chk!(v, "C15", if own == 0 { o.price < *pp } else { o.price > *pp }, "order at {} evicted by an order at {}", o.price, pp);
                        } else {
                            v.push(("C15", "eviction not followed by a placement".into()));
                        }
                    }
                }
            }
            Ev::Place { seq, cid, price, lots } => {
                chk!(v, "C08", p.kind != 2, "immediate-or-cancel order rests on the book");
                chk!(v, "C07", !exp_packet, "expired order packet was posted");
                chk!(v, "C16", s.status == 1 || s.status == 2, "order posted while market status is {}", s.status);
                let want = if own == 0 { !*oseq } else { *oseq };
                chk!(v, "C11", *seq == want, "placed order id {:x}, expected {:x}", seq, want);
                chk!(v, "C12", *cid == p.cid, "place event client id {} differs from {}", cid, p.cid);
                *oseq += 1;
                let b = best(&books[opp], opp as u8, st.slot, st.ts);
                if let Some(b) = &b {
                    chk!(v, "C04", if own == 0 { *price < b.price } else { *price > b.price }, "posted at {} crossing the opposite order {:?}", price, b);
                }
                let req = if own == 1 { p.price.unwrap_or(0).max(1) } else { p.price.unwrap_or(0) };
                if p.kind == 0 {
                    match cross_pre.take() {
                        None => chk!(v, "C04", *price == req, "post-only order placed at {} instead of {}", price, req),
                        Some(x) => {
                            chk!(v, "C04", !p.reject, "crossing post-only order was not rejected");
                            chk!(v, "C04", *price == if own == 0 { x.wrapping_sub(1) } else { x + 1 }, "post-only order amended to {} against best {}", price, x);
                        }
                    }
                    chk!(v, "C12", *lots == p.base, "post-only placed {} lots of {}", lots, p.base);
                } else {
                    chk!(v, "C03", *price == req, "limit order placed at {} instead of {}", price, req);
                    if p.ml.is_none() { chk!(v, "C05", *lots as u128 + t.base + t.dec == p.base as u128, "limit order of {}: filled {}, self-decremented {}, posted {}", p.base, t.base, t.dec, lots); }
                    else { chk!(v, "C05", *lots as u128 + t.base + t.dec <= p.base as u128, "limit order of {}: filled {}, posted {}", p.base, t.base, lots); }
                }
                let o = Ord_ { price: *price, seq: *seq, trader: *taker, lots: *lots, slot: p.lvs.unwrap_or(0), ts: p.lvt.unwrap_or(0) };
                if own == 0 { t.post_q = s.val(*price, *lots) } else { t.post_b = *lots as u128 }
                if o.slot != 0 || o.ts != 0 {
                    match evs.get(i + 1) {
                        Some(Ev::Tif { seq: q, slot, ts }) => {
                            chk!(v, "C12", q == seq && *slot == o.slot && *ts == o.ts, "time-in-force event {:?} does not match order {:?}", evs[i + 1], o);
                            i += 1;
                        }
                        _ => v.push(("C12", "expiring order placed without a time-in-force event".into())),
                    }
                }
                books[own].push(o.clone());
                t.posted = Some(o);
                placed_now = true;
            }
            Ev::Tif { .. } => v.push(("C12", "stray time-in-force event".into())),
            Ev::Fee { .. } => v.push(("C12", "fee event in a placement".into())),
        }
        i += 1;
        if placed_now { break; }
        // the end of a limit order that posted nothing
        if summary && p.kind == 1 && !matches!(evs.get(i), Some(Ev::Place { .. }) | Some(Ev::Evict { .. })) { break; }
    }
    if p.kind != 0 && !exp_packet {
        chk!(v, "C12", summary, "no fill summary for a matching order");
    }
    if let Some(m) = p.ml {
        chk!(v, "C08", matches <= m, "{} orders matched with a match limit of {}", matches, m);
    }
    if p.base > 0 {
        chk!(v, "C05", t.base + t.dec <= p.base as u128, "order of {} base lots traded {} (+{} self-decremented)", p.base, t.base, t.dec);
    }
    if p.quote > 0 && t.dec > 0 {
        let used = t.qv + t.dec_q;
        let fits = if p.side == 0 { used * (10000 + s.fee as u128) <= p.quote as u128 * 10000 } else { used.saturating_sub(1) * (10000u128.saturating_sub(s.fee as u128)) <= p.quote as u128 * 10000 };
        chk!(v, "C06", fits, "order with quote budget {} traded {} and self-decremented {} quote lots at {} bps", p.quote, t.qv, t.dec_q, s.fee);
    }
    // nothing left on the table: a base-budgeted taker stops only for budget, limit or match limit
    if p.kind != 0 && p.base > 0 && !exp_packet && t.base + t.dec < p.base as u128 && p.ml.map_or(true, |m| matches < m) {
        // prices whose value does not fit the machine word cannot be traded
        let b = best(&books[opp], opp as u8, st.slot, st.ts).filter(|o| limit_ok(o.price) && o.price < 1 << 40 && t.qv < 1 << 60);
        chk!(v, "C03", b.is_none(), "order stopped with {} of {} lots while {:?} was available", t.base + t.dec, p.base, b);
    }
    (t, i)
}
fn sorted(side: u8, mut b: Vec<Ord_>) -> Vec<Ord_> {
    b.sort_by(|x, y| prio(side, x, y));
    b
}
pub fn ladder(v: &mut V, env: &Env, s: &Snap, levels: u64, slot: Option<u64>, ts: Option<u64>) {
    let a = env.w.get(&env.m.key);
    if a.data.len() < 576 { return; }
    let body = &a.data[576..];
    let mut al = vec![0u64; body.len() / 8 + 1];
    let bytes: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(al.as_mut_ptr() as *mut u8, body.len()) };
    bytes.copy_from_slice(body);
    let sp = size_params(&a.data);
    let mk = phoenix::program::load_with_dispatch(&sp, bytes).unwrap().inner;
    let l = mk.get_ladder_with_expiration(levels, slot, ts);
    for (side, got) in [(0u8, &l.bids), (1u8, &l.asks)] {
        let mut want: Vec<(u64, u64)> = vec![];
        for o in sorted(side, s.book(side).clone()) {
            if o.expired(slot.unwrap_or(0), ts.unwrap_or(0)) { continue; }
            match want.last_mut() {
                Some(x) if x.0 == o.price => x.1 += o.lots,
                _ => want.push((o.price, o.lots)),
            }
        }
        want.truncate(levels as usize);
        let g: Vec<(u64, u64)> = got.iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect();
        chk!(v, "C21", g == want, "ladder side {} levels {} at {:?}/{:?}: {:?}, expected {:?}", side, levels, slot, ts, g, want);
    }
}
fn transfers(out: &Outcome) -> Vec<(Pubkey, Pubkey, Pubkey, u64)> {
    out.cpis.iter().filter_map(|c| if let Cpi::Transfer { src, dst, auth, amount } = c { Some((*src, *dst, *auth, *amount)) } else { None }).collect()
}
/// What the account list must look like for the instruction to be allowed; Err = why it must fail.
pub fn required(st: &Step) -> Result<(), (&'static str, String)> {
    let e = st.env;
    // the runtime merges the flags of repeated accounts
    let merged: Vec<AccountMeta> = st.metas.iter().map(|x| AccountMeta { pubkey: x.pubkey, is_signer: st.metas.iter().any(|y| y.pubkey == x.pubkey && y.is_signer), is_writable: st.metas.iter().any(|y| y.pubkey == x.pubkey && y.is_writable) }).collect();
    let m = &merged[..];
    let tag = st.data[0];
    let w = st.pre_w;
    let bad = |p: &'static str, s: &str| Err((p, s.to_string()));
    if tag == 15 {
        if m.is_empty() || !m[0].is_signer || m[0].pubkey != log_auth() { return bad("C13", "log instruction without the log authority's signature"); }
        return Ok(());
    }
    if m.len() < 4 { return bad("C19", "too few accounts"); }
    if m[0].pubkey != phoenix::ID { return bad("C19", "wrong program account"); }
    if m[1].pubkey != log_auth() { return bad("C19", "wrong log authority"); }
    let ma = w.get(&m[2].pubkey);
    if ma.owner != phoenix::ID { return bad("C19", "market not owned by the program"); }
    let (hm, _other) = if m[2].pubkey == e.m.key { (&e.m, false) } else if m[2].pubkey == e.m2.key { (&e.m2, true) } else { return bad("C19", "not a market account"); };
    if !m[3].is_signer { return bad("C17", "market instruction signer did not sign"); }
    let signer = m[3].pubkey;
    let authority = rpk(&ma.data, 208);
    let token = |k: &Pubkey, mint: &Pubkey, owner: &Pubkey| -> bool {
        let a = w.get(k);
        a.owner == TOKEN && a.data.len() == 165 && rpk(&a.data, 0) == *mint && rpk(&a.data, 32) == *owner
    };
    let vctx = |o: usize, t: &Pubkey| -> Result<(), (&'static str, String)> {
        if m.len() < o + 5 { return Err(("C19", "missing vault accounts".into())); }
        if !token(&m[o].pubkey, &hm.bm, t) { return Err(("C19", "base account is not the trader's".into())); }
        if !token(&m[o + 1].pubkey, &hm.qm, t) { return Err(("C19", "quote account is not the trader's".into())); }
        if m[o + 2].pubkey != hm.bv { return Err(("C19", "wrong base vault".into())); }
        if m[o + 3].pubkey != hm.qv { return Err(("C19", "wrong quote vault".into())); }
        if m[o + 4].pubkey != TOKEN { return Err(("C19", "wrong token program".into())); }
        Ok(())
    };
    let seat = |o: usize, t: &Pubkey, approved: Option<bool>| -> Result<(), (&'static str, String)> {
        if m.len() <= o { return Err(("C18", "missing seat".into())); }
        if m[o].pubkey != seat_key(&hm.key, t) { return Err(("C18", "not the seat of this trader on this market".into())); }
        let stt = seat_status(w, &hm.key, t);
        match (stt, approved) {
            (None, _) => Err(("C18", "seat does not exist".into())),
            (Some(x), Some(true)) if x != 1 => Err(("C18", format!("seat status {} is not approved", x))),
            (Some(1), Some(false)) => Err(("C18", "seat is still approved".into())),
            _ => Ok(()),
        }
    };
    let status = ru64(&ma.data, 8);
    let auth = || if signer == authority { Ok(()) } else { Err(("C17", format!("signer {} is not the market authority", signer))) };
    match tag {
        0 => { if status != 1 { return bad("C16", "swap while the market is not active"); } vctx(4, &signer)?; }
        1 => { if status != 1 { return bad("C16", "swap while the market is not active"); } seat(4, &signer, Some(true))?; }
        2 | 16 => { if status != 1 && status != 2 { return bad("C16", "posting not allowed"); } seat(4, &signer, Some(true))?; vctx(5, &signer)?; }
        3 | 17 => { if status != 1 && status != 2 { return bad("C16", "posting not allowed"); } seat(4, &signer, Some(true))?; }
        4 | 6 | 8 | 10 | 12 => { if !(1..=4).contains(&status) { return bad("C16", "reduction not allowed"); } vctx(4, &signer)?; }
        13 => { if status != 1 && status != 2 { return bad("C16", "deposit not allowed"); } seat(4, &signer, Some(true))?; vctx(5, &signer)?; }
        14 => {
            if status != 1 && status != 2 { return bad("C16", "seat request not allowed"); }
            if m.len() < 6 || m[4].pubkey != seat_key(&hm.key, &signer) || m[5].pubkey != SYS { return bad("C18", "wrong seat account"); }
            if seat_status(w, &hm.key, &signer).is_some() { return bad("C18", "seat already exists"); }
        }
        105 => {
            auth()?;
            if m.len() < 8 || m[6].pubkey != seat_key(&hm.key, &m[5].pubkey) || m[7].pubkey != SYS { return bad("C18", "wrong seat account"); }
            if !m[4].is_signer || !m[4].is_writable { return bad("C17", "payer did not sign"); }
            if seat_status(w, &hm.key, &m[5].pubkey).is_some() { return bad("C18", "seat already exists"); }
        }
        104 => {
            auth()?;
            let a = w.get(&m.get(4).map(|x| x.pubkey).unwrap_or(SYS));
            if a.owner != phoenix::ID || a.data.len() != 128 || rpk(&a.data, 8) != hm.key || seat_key(&hm.key, &rpk(&a.data, 40)) != m[4].pubkey { return bad("C18", "not a seat of this market"); }
        }
        106 | 107 => { auth()?; if m.len() < 6 { return bad("C19", "missing accounts"); } seat(5, &m[4].pubkey, Some(false))?; vctx(6, &m[4].pubkey)?; }
        108 => {
            if m.len() < 7 { return bad("C19", "missing accounts"); }
            if !token(&m[4].pubkey, &hm.qm, &rpk(&ma.data, 240)) { return bad("C17", "fees collected to an account that is not the fee recipient's"); }
            if m[5].pubkey != hm.qv { return bad("C19", "wrong quote vault"); }
            if m[6].pubkey != TOKEN { return bad("C19", "wrong token program"); }
        }
        109 => {
            auth()?;
            let prev = rpk(&ma.data, 240);
            let unc = snap(w, hm).uncollected;
            if unc > 0 && !(m.len() > 5 && m[5].pubkey == prev && m[5].is_signer) { return bad("C17", "fee recipient changed with uncollected fees and without the previous recipient's signature"); }
        }
        102 | 103 => auth()?,
        101 => { if signer != rpk(&ma.data, 280) { return bad("C17", "claimed by someone who is not the named successor"); } }
        _ => {}
    }
    Ok(())
}
fn only_seq_changed(v: &mut V, p: &'static str, a: &Snap, b: &Snap, what: &str) {
    let mut c = b.clone();
    c.mseq = a.mseq;
    chk!(v, p, *a == c, "{} changed the market: {:?} -> {:?}", what, diff(a, &c), "");
}
pub fn diff(a: &Snap, b: &Snap) -> String {
    let mut o = String::new();
    macro_rules! d { ($($f:ident),*) => { $( if a.$f != b.$f { o += &format!(" {}: {:?} -> {:?};", stringify!($f), a.$f, b.$f); } )* } }
    d!(exists, status, authority, successor, fee_rcpt, mseq, oseq, bids, asks, traders, collected, uncollected, vq, vb);
    if a.rest != b.rest { o += " header;" }
    o.truncate(1500);
    o
}
pub fn step(st: &Step) -> V {
    let mut v: V = vec![];
    let (pre, post, out) = (st.pre, st.post, st.out);
    if matches!(st.op, Op::Time { .. }) { return v; }
    if let Err(e) = &out.res {
        if e == "readonly account modified" || e == "lamports not conserved" { v.push(("C19", e.clone())); }
        must_succeed(&mut v, st, e);
        return v;
    }
    // ---- the instruction succeeded
    if let Err((p, why)) = required(st) {
        v.push((p, format!("succeeded although {}", why)));
    }
    if st.data[0] == 15 {
        chk!(v, "C13", out.cpis.is_empty(), "log instruction performed CPIs");
        only_seq_changed(&mut v, "C13", pre, post, "log");
        chk!(v, "C13", pre.mseq == post.mseq, "log instruction changed the market");
        return v;
    }
    let mk = if st.metas.len() > 2 { st.metas[2].pubkey } else { SYS };
    if mk != st.env.m.key {
        chk!(v, "C19", pre == post, "an instruction on another market changed this market: {}", diff(pre, post));
        return v;
    }
    invariants(&mut v, post, st.slot, st.ts);
    // ---- log batches
    let mut evs: Vec<Ev> = vec![];
    let mut batches = 0;
    for c in &out.cpis {
        if let Cpi::Log(d) = c {
            batches += 1;
            chk!(v, "C13", d.len() + 34 <= 1280, "log instruction of {} bytes", d.len());
            match decode_batch(d) {
                Err(e) => v.push(("C13", e)),
                Ok(b) => {
                    chk!(v, "C13", b.instr == st.data[0] && b.market == mk && b.signer == st.metas[3].pubkey && b.slot == st.slot && b.ts == st.ts as i64, "log header {:?} does not describe the instruction", b);
                    chk!(v, "C13", b.seq == pre.mseq, "log header sequence {} but the market was at {}", b.seq, pre.mseq);
                    chk!(v, "C13", b.total as usize == b.evs.len(), "log header counts {} events, batch holds {}", b.total, b.evs.len());
                    for (i, e) in b.evs {
                        chk!(v, "C13", i as usize == evs.len(), "event index {} at position {}", i, evs.len());
                        evs.push(e);
                    }
                }
            }
        }
    }
    chk!(v, "C13", batches >= 1, "instruction emitted no log record");
    if post.exists { chk!(v, "C13", post.mseq == pre.mseq + 1, "market sequence number went from {} to {}", pre.mseq, post.mseq); }
    chk!(v, "C22", !post.exists || post.rest == pre.rest, "market parameters in the header changed");
    chk!(v, "C22", !post.exists || (post.tick == pre.tick && post.blpu == pre.blpu && post.fee == pre.fee && post.qls == pre.qls && post.bls == pre.bls), "market parameters changed");
    let tag = st.data[0];
    if !matches!(tag, 101) { chk!(v, "C17", !post.exists || pre.authority == post.authority, "authority changed by instruction {}", tag); }
    if !matches!(tag, 102) { chk!(v, "C17", !post.exists || pre.successor == post.successor, "successor changed by instruction {}", tag); }
    if !matches!(tag, 109) { chk!(v, "C17", !post.exists || pre.fee_rcpt == post.fee_rcpt, "fee recipient changed by instruction {}", tag); }
    if !matches!(tag, 103) { chk!(v, "C16", pre.status == post.status && post.exists, "status changed by instruction {}", tag); }
    if !matches!(tag, 0..=3) { chk!(v, "C05", !post.exists || pre.uncollected + pre.collected == post.uncollected + post.collected, "fees changed without a trade"); }
    if !matches!(tag, 108) { chk!(v, "C05", !post.exists || pre.collected == post.collected, "collected fees changed by instruction {}", tag); }
    // seats other than the addressed one never change
    for i in 0..st.env.traders.len() {
        let t = &st.env.traders[i];
        let k = seat_key(&mk, t);
        if st.env.w.get(&k) != st.pre_w.get(&k) {
            let ok = matches!(tag, 14 | 104 | 105) && st.metas.iter().any(|m| m.pubkey == k);
            chk!(v, "C18", ok, "seat of {} changed by instruction {}", t, tag);
        }
    }
    let tr = transfers(out);
    let e = st.env;
    // instructions that never touch the book
    if matches!(tag, 12..=14 | 101..=106 | 108 | 109) && post.exists {
        chk!(v, "C12", pre.bids == post.bids && pre.asks == post.asks && evs.iter().all(|x| matches!(x, Ev::Fee { .. })), "instruction {} changed the book or logged book events", tag);
    }
    if tag == 1 || tag == 3 || tag == 17 || tag == 5 || tag == 7 || tag == 9 || tag == 11 {
        chk!(v, "C20", tr.is_empty(), "free-funds instruction moved tokens: {:?}", tr);
    }
    let traders_except = |skip: &[Pubkey], v: &mut V, p: &'static str| {
        for (k, x) in &pre.traders {
            if !skip.contains(k) { chk!(v, p, post.traders.get(k) == Some(x), "funds of uninvolved trader {} changed: {:?} -> {:?}", k, x, post.traders.get(k)); }
        }
        for k in post.traders.keys() {
            chk!(v, p, pre.traders.contains_key(k) || skip.contains(k), "a trader {} that the instruction does not name is registered", k);
        }
    };
    match st.op {
        Op::Swap { t, ff, p } | Op::Limit { t, ff, p } if !st.tampered => {
            let taker = e.traders[*t];
            let q = pl(p);
            let is_swap = matches!(st.op, Op::Swap { .. });
            chk!(v, "C08", is_swap == (p.kind == 2), "order type {} accepted by the wrong instruction {}", p.kind, tag);
            chk!(v, "C20", p.dep == *ff, "use-only-deposited-funds flag {} accepted by instruction {}", p.dep, tag);
            let exp_packet = q.lvs.map_or(false, |x| x < st.slot) || q.lvt.map_or(false, |x| x < st.ts);
            let free = pre.ts(&taker);
            // fail-silently: an unaffordable order leaves no trace
            if p.kind != 2 && p.silent {
                let (aq, ab) = if *ff { (free.qf as u128, free.bf as u128) } else {
                    (free.qf as u128 + (st.pre_w.token_balance(&e.quote_acct(&taker)) / pre.qls) as u128, free.bf as u128 + (st.pre_w.token_balance(&e.base_acct(&taker)) / pre.bls) as u128)
                };
                let need_q = pre.val(p.price.unwrap_or(0), p.base);
                let short = if p.side == 0 { aq < need_q } else { ab < p.base as u128 };
                if short {
                    chk!(v, "C24", evs.is_empty() && tr.is_empty(), "order without sufficient funds was not skipped");
                    only_seq_changed(&mut v, "C24", pre, post, "skipped order");
                    return v;
                } else if !exp_packet {
                    chk!(v, "C24", !evs.is_empty(), "affordable fail-silently order was skipped");
                }
            }
            let mut books = [pre.bids.clone(), pre.asks.clone()];
            let mut oseq = pre.oseq;
            let (tt, used) = follow(&mut v, st, &taker, &q, &mut books, &mut oseq, &evs, [pre.sizes.0, pre.sizes.1]);
            if exp_packet {
                chk!(v, "C07", evs.is_empty() && tr.is_empty() && pre.bids == post.bids && pre.asks == post.asks && pre.oseq == post.oseq && pre.traders.iter().all(|(k, x)| post.traders.get(k) == Some(x)), "expired order packet had an effect");
                return v;
            }
            chk!(v, "C12", used == evs.len(), "unexpected events after the order: {:?}", &evs[used.min(evs.len())..]);
            chk!(v, "C12", sorted(0, books[0].clone()) == post.bids && sorted(1, books[1].clone()) == post.asks, "book differs from the logged events; diff{}", diff(&Snap { bids: sorted(0, books[0].clone()), asks: sorted(1, books[1].clone()), ..post.clone() }, post));
            chk!(v, "C11", post.oseq == oseq, "order sequence number {} expected {}", post.oseq, oseq);
            chk!(v, "C05", post.uncollected as u128 == pre.uncollected as u128 + tt.fee, "uncollected fees {} -> {}, fee {}", pre.uncollected, post.uncollected, tt.fee);
            if p.kind == 2 { chk!(v, "C08", post.book(p.side) == pre.book(p.side), "immediate-or-cancel order changed its own side of the book"); }
            // return data lists the placed id
            let ids = ret_ids(out);
            let want: Vec<(u64, u64)> = if is_swap { vec![] } else { tt.posted.iter().map(|o| (o.price, o.seq)).collect() };
            chk!(v, "C11", ids == want, "return data {:?}, placed {:?}", ids, want);
            // money
            let registered = pre.traders.contains_key(&taker) || post.traders.contains_key(&taker);
            let (mut want_tr, need, fre);
            want_tr = vec![];
            if p.side == 0 {
                need = tt.post_q + tt.qv + tt.fee;
                fre = if registered { free.qf as u128 + tt.freed_q } else { 0 };
            } else {
                need = tt.post_b + tt.base;
                fre = if registered { free.bf as u128 + tt.freed_b } else { 0 };
            }
            let used_free = need.min(fre);
            let dep = need - used_free;
            let outq = if p.side == 1 { tt.qv.wrapping_sub(tt.fee) } else { 0 };
            let outb = if p.side == 0 { tt.base } else { 0 };
            if *ff {
                chk!(v, "C20", dep == 0, "free-funds order needed {} lots but only {} were free", need, fre);
            } else {
                if p.side == 0 {
                    if outb > 0 { want_tr.push((e.m.bv, e.base_acct(&taker), e.m.bv, (outb * pre.bls as u128) as u64)); }
                    if dep > 0 { want_tr.push((e.quote_acct(&taker), e.m.qv, taker, (dep * pre.qls as u128) as u64)); }
                } else {
                    if outq > 0 { want_tr.push((e.m.qv, e.quote_acct(&taker), e.m.qv, (outq * pre.qls as u128) as u64)); }
                    if dep > 0 { want_tr.push((e.base_acct(&taker), e.m.bv, taker, (dep * pre.bls as u128) as u64)); }
                }
                chk!(v, "C20", sort4(&tr) == sort4(&want_tr), "token transfers {:?}, expected {:?}", tr, want_tr);
            }
            if let Some(x) = post.traders.get(&taker) {
                let mut wq = free.qf as u128 + tt.freed_q;
                let mut wb = free.bf as u128 + tt.freed_b;
                if p.side == 0 { wq = wq.wrapping_sub(used_free) } else { wb = wb.wrapping_sub(used_free) }
                if *ff { wq += outq; wb += outb; }
                chk!(v, "C20", x.qf as u128 == wq && x.bf as u128 == wb, "trader's free funds {}/{} expected {}/{}", x.qf, x.bf, wq, wb);
            }
            makers(&mut v, st, &evs, &taker);
        }
        Op::Multi { t, ff, bids, asks, cid, beh } if !st.tampered => multi(&mut v, st, &evs, &tr, *t, *ff, bids, asks, *cid, *beh),
        Op::Reduce { t, ww, side, price, seq, size } if !st.tampered => {
            let tk = e.traders[*t];
            let o = pre.book(*side).iter().find(|o| o.seq == *seq && o.price == *price).cloned();
            match o {
                Some(o) if o.trader == tk => {
                    let rem = (*size).min(o.lots);
                    release(&mut v, st, &evs, &tr, &tk, *ww, vec![(*side, o, rem)], "C09");
                }
                Some(o) => v.push(("C09", format!("{} reduced an order of {}", tk, o.trader))),
                None => release(&mut v, st, &evs, &tr, &tk, *ww, vec![], "C09"),
            }
            traders_except(&[tk], &mut v, "C09");
        }
        Op::CancelAll { t, ww } if !st.tampered => {
            let tk = e.traders[*t];
            let mut l = vec![];
            for s in [0u8, 1] { for o in pre.book(s) { if o.trader == tk { l.push((s, o.clone(), o.lots)); } } }
            release(&mut v, st, &evs, &tr, &tk, *ww, l, "C14");
            traders_except(&[tk], &mut v, "C09");
        }
        Op::CancelUpTo { t, ww, side, lim, search, cancel } if !st.tampered => {
            let tk = e.traders[*t];
            release(&mut v, st, &evs, &tr, &tk, *ww, upto(pre, &tk, *side, *lim, *search, *cancel), "C14");
            traders_except(&[tk], &mut v, "C09");
        }
        Op::ForceCancel { t, side, lim, search, cancel, .. } if !st.tampered => {
            let tk = e.traders[*t];
            release(&mut v, st, &evs, &tr, &tk, true, upto(pre, &tk, *side, *lim, *search, *cancel), "C14");
            traders_except(&[tk], &mut v, "C09");
        }
        Op::CancelById { t, ww, ids } if !st.tampered => {
            let tk = e.traders[*t];
            let mut l: Vec<(u8, Ord_, u64)> = vec![];
            for (s, p, q) in ids {
                if let Some(o) = pre.book(*s).iter().find(|o| o.seq == *q && o.price == *p && o.trader == tk) {
                    if !l.iter().any(|x| x.1.seq == *q) { l.push((*s, o.clone(), o.lots)); }
                }
            }
            release(&mut v, st, &evs, &tr, &tk, *ww, l, "C14");
            traders_except(&[tk], &mut v, "C09");
        }
        Op::Withdraw { t, q, b } if !st.tampered => {
            let tk = e.traders[*t];
            let x = pre.ts(&tk);
            let (oq, ob) = (q.unwrap_or(u64::MAX).min(x.qf), b.unwrap_or(u64::MAX).min(x.bf));
            withdraw(&mut v, st, &tr, &tk, oq, ob);
            chk!(v, "C10", post.traders.get(&tk) == Some(&TS { qf: x.qf - oq, bf: x.bf - ob, ..x }), "withdrawal left {:?} from {:?}", post.traders.get(&tk), x);
            traders_except(&[tk], &mut v, "C10");
        }
        Op::Evict { t, .. } if !st.tampered => {
            let tk = e.traders[*t];
            let x = pre.ts(&tk);
            chk!(v, "C10", x.ql == 0 && x.bl == 0, "trader with locked funds {:?} was evicted", x);
            withdraw(&mut v, st, &tr, &tk, x.qf, x.bf);
            chk!(v, "C10", !post.traders.contains_key(&tk), "evicted trader still registered");
            traders_except(&[tk], &mut v, "C10");
        }
        Op::Deposit { t, q, b } if !st.tampered => {
            let tk = e.traders[*t];
            let x = pre.ts(&tk);
            let mut w = vec![];
            if *q > 0 { w.push((e.quote_acct(&tk), e.m.qv, tk, q.wrapping_mul(pre.qls))) }
            if *b > 0 { w.push((e.base_acct(&tk), e.m.bv, tk, b.wrapping_mul(pre.bls))) }
            chk!(v, "C20", sort4(&tr) == sort4(&w), "deposit transfers {:?}, expected {:?}", tr, w);
            chk!(v, "C20", post.traders.get(&tk) == Some(&TS { qf: x.qf.wrapping_add(*q), bf: x.bf.wrapping_add(*b), ..x }), "deposit left {:?} from {:?}", post.traders.get(&tk), x);
            traders_except(&[tk], &mut v, "C20");
        }
        Op::CollectFees { .. } if !st.tampered => {
            let a = pre.uncollected;
            let mut w = vec![];
            if a > 0 { w.push((e.m.qv, Env::ata(&pre.fee_rcpt, &e.m.qm), e.m.qv, a * pre.qls)) }
            chk!(v, "C20", tr == w, "fee transfers {:?}, expected {:?}", tr, w);
            chk!(v, "C05", post.uncollected == 0 && post.collected == pre.collected + a, "fee counters {}/{} -> {}/{}", pre.collected, pre.uncollected, post.collected, post.uncollected);
            chk!(v, "C12", evs == vec![Ev::Fee { q: a }], "fee collection logged {:?}", evs);
            traders_except(&[], &mut v, "C10");
        }
        Op::ReqSeat { .. } | Op::ReqSeatAuth { .. } => {
            let tk = if tag == 14 { st.metas[3].pubkey } else { st.metas[5].pubkey };
            let a = st.env.w.get(&seat_key(&mk, &tk));
            chk!(v, "C18", a.owner == phoenix::ID && a.data.len() == 128 && rpk(&a.data, 8) == mk && rpk(&a.data, 40) == tk && ru64(&a.data, 72) == 0, "requested seat is not a fresh unapproved seat");
            chk!(v, "C18", pre.traders == post.traders, "seat request changed trader states");
        }
        Op::SeatStatus { t, st: ns, .. } if !st.tampered => {
            let tk = e.traders[*t];
            let o = seat_status(st.pre_w, &mk, &tk).unwrap_or(9);
            let n = seat_status(&st.env.w, &mk, &tk).unwrap_or(9);
            let ok = o == *ns as u64 || matches!((o, *ns), (0, 1) | (1, 0) | (0, 2) | (1, 2));
            chk!(v, "C18", ok && n == *ns as u64, "seat went from {} to {} on request {}", o, n, ns);
            if o != 1 && *ns == 1 { chk!(v, "C18", post.traders.contains_key(&tk), "approved trader was not registered"); }
            traders_except(if o != 1 && *ns == 1 { std::slice::from_ref(&tk) } else { &[] }, &mut v, "C18");
        }
        Op::NameSucc { new, .. } if !st.tampered => chk!(v, "C17", post.successor == *new, "successor is {}", post.successor),
        Op::Claim { signer } if !st.tampered => chk!(v, "C17", post.authority == *signer && pre.successor == *signer, "authority is {}", post.authority),
        Op::ChangeFee { new, .. } if !st.tampered => chk!(v, "C17", post.fee_rcpt == *new, "fee recipient is {}", post.fee_rcpt),
        Op::Status { st: ns, recv, auth } if !st.tampered => {
            let ok = matches!((pre.status, *ns as u64), (1, 2) | (1, 3) | (1, 1) | (2, 1) | (2, 3) | (2, 4) | (2, 2) | (4, 5) | (4, 3) | (4, 4) | (4, 2) | (3, 1) | (3, 2) | (3, 4) | (3, 3));
            chk!(v, "C16", ok, "status went from {} to {}", pre.status, ns);
            if *ns == 5 {
                chk!(v, "C16", pre.bids.is_empty() && pre.asks.is_empty() && pre.uncollected == 0 && pre.traders.is_empty(), "market removed while it still had orders, fees or traders");
                let rc = recv.unwrap_or(*auth);
                let moved = st.pre_w.get(&mk).lamports;
                chk!(v, "C16", e.w.get(&rc).lamports == st.pre_w.get(&rc).lamports + moved && !post.exists && e.w.get(&mk).owner == SYS, "market removal did not hand its lamports to the receiver");
            } else {
                chk!(v, "C16", post.status == *ns as u64, "status is {} after a change to {}", post.status, ns);
            }
        }
        _ => {}
    }
    v
}
fn sort4(x: &[(Pubkey, Pubkey, Pubkey, u64)]) -> Vec<(Pubkey, Pubkey, Pubkey, u64)> {
    let mut y = x.to_vec();
    y.sort();
    y
}
fn ret_ids(out: &Outcome) -> Vec<(u64, u64)> {
    match &out.ret {
        None => vec![],
        Some(d) if d.len() >= 4 => {
            let n = u32::from_le_bytes(d[0..4].try_into().unwrap()) as usize;
            if d.len() != 4 + 16 * n { return vec![(0, 0); 1]; }
            (0..n).map(|i| (ru64(d, 4 + 16 * i), ru64(d, 12 + 16 * i))).collect()
        }
        _ => vec![(0, 0)],
    }
}
/// Every maker's funds change exactly by its own fills, expiries and evictions.
fn makers(v: &mut V, st: &Step, evs: &[Ev], taker: &Pubkey) {
    let pre = st.pre;
    let mut d: BTreeMap<Pubkey, [i128; 4]> = BTreeMap::new();
    for e in evs {
        match e {
            Ev::Fill { maker, seq, price, filled, .. } => {
                let bid = *seq >> 63 == 1;
                let x = d.entry(*maker).or_default();
                let q = pre.val(*price, *filled) as i128;
                if bid { x[0] -= q; x[3] += *filled as i128 } else { x[2] -= *filled as i128; x[1] += q }
            }
            Ev::Expired { maker, seq, price, lots } | Ev::Evict { maker, seq, price, lots } => {
                let bid = *seq >> 63 == 1;
                let x = d.entry(*maker).or_default();
                let q = pre.val(*price, *lots) as i128;
                if bid { x[0] -= q; x[1] += q } else { x[2] -= *lots as i128; x[3] += *lots as i128 }
            }
            _ => {}
        }
    }
    for (k, x) in &pre.traders {
        if k == taker { continue; }
        let c = d.get(k).copied().unwrap_or_default();
        let w = [x.ql as i128 + c[0], x.qf as i128 + c[1], x.bl as i128 + c[2], x.bf as i128 + c[3]];
        let g = post_of(st, k);
        chk!(v, "C01", g == w, "funds of trader {} are {:?}, its fills give {:?}", k, g, w);
    }
}
fn post_of(st: &Step, k: &Pubkey) -> [i128; 4] {
    match st.post.traders.get(k) {
        None => [-1; 4],
        Some(y) => [y.ql as i128, y.qf as i128, y.bl as i128, y.bf as i128],
    }
}
fn upto(pre: &Snap, tk: &Pubkey, side: u8, lim: Option<u64>, search: Option<u32>, cancel: Option<u32>) -> Vec<(u8, Ord_, u64)> {
    pre.book(side)
        .iter()
        .take(search.map_or(usize::MAX, |x| x as usize))
        .filter(|o| o.trader == *tk && lim.map_or(true, |l| if side == 0 { o.price >= l } else { o.price <= l }))
        .take(cancel.map_or(usize::MAX, |x| x as usize))
        .map(|o| (side, o.clone(), o.lots))
        .collect()
}
fn withdraw(v: &mut V, st: &Step, tr: &[(Pubkey, Pubkey, Pubkey, u64)], tk: &Pubkey, oq: u64, ob: u64) {
    let e = st.env;
    let mut w = vec![];
    if oq > 0 { w.push((e.m.qv, e.quote_acct(tk), e.m.qv, oq * st.pre.qls)) }
    if ob > 0 { w.push((e.m.bv, e.base_acct(tk), e.m.bv, ob * st.pre.bls)) }
    chk!(v, "C20", sort4(tr) == sort4(&w), "withdrawal transfers {:?}, expected {:?}", tr, w);
    chk!(v, "C10", tr.iter().all(|x| (x.0 == e.m.qv && x.3 <= oq * st.pre.qls) || (x.0 == e.m.bv && x.3 <= ob * st.pre.bls)), "paid out more than the free balance: {:?}", tr);
}
/// Cancels/reductions: exactly these orders shrink by these amounts, are logged, and their funds are released.
fn release(v: &mut V, st: &Step, evs: &[Ev], tr: &[(Pubkey, Pubkey, Pubkey, u64)], tk: &Pubkey, ww: bool, l: Vec<(u8, Ord_, u64)>, p: &'static str) {
    let pre = st.pre;
    let mut books = [pre.bids.clone(), pre.asks.clone()];
    let mut want_evs = vec![];
    let (mut fq, mut fb) = (0u128, 0u128);
    for (s, o, rem) in &l {
        let k = shadow_find(&books[*s as usize], o.seq).unwrap();
        books[*s as usize][k].lots -= rem;
        let left = books[*s as usize][k].lots;
        if left == 0 { books[*s as usize].remove(k); }
        if *s == 0 { fq += pre.val(o.price, o.lots) - pre.val(o.price, left) } else { fb += *rem as u128 }
        want_evs.push((o.seq, o.price, *rem, left));
    }
    chk!(v, p, books[0] == st.post.bids && books[1] == st.post.asks, "orders after the reduction differ from exactly {:?}; diff{}", l, diff(&Snap { bids: books[0].clone(), asks: books[1].clone(), ..st.post.clone() }, st.post));
    // others' orders untouched
    for s in [0u8, 1] {
        let a: Vec<&Ord_> = pre.book(s).iter().filter(|o| o.trader != *tk).collect();
        let b: Vec<&Ord_> = st.post.book(s).iter().filter(|o| o.trader != *tk).collect();
        chk!(v, "C09", a == b, "another trader's orders changed");
    }
    let mut got: Vec<(u64, u64, u64, u64)> = vec![];
    for e in evs {
        match e {
            Ev::Reduce { seq, price, removed, remaining } => got.push((*seq, *price, *removed, *remaining)),
            _ => v.push(("C12", format!("unexpected event {:?} for a reduction", e))),
        }
    }
    // a reduction by zero lots of an existing order is logged as such; absent orders are not logged
    let mut g2 = got.clone();
    g2.sort();
    want_evs.sort();
    chk!(v, "C12", g2 == want_evs, "logged reductions {:?}, performed {:?}", got, want_evs);
    chk!(v, "C11", st.post.oseq == pre.oseq, "order sequence number changed");
    // the funds
    let x = pre.ts(tk);
    if let Some(y) = st.post.traders.get(tk) {
        if ww {
            // withdrawing variants pay out the trader's free funds in full or in part: compare with transfers
            let e = st.env;
            let mut oq = 0u128;
            let mut ob = 0u128;
            for (s, d, a, n) in tr {
                if *s == e.m.qv && *d == e.quote_acct(tk) && *a == e.m.qv { oq += *n as u128 } else if *s == e.m.bv && *d == e.base_acct(tk) && *a == e.m.bv { ob += *n as u128 } else { v.push(("C20", format!("unexpected transfer {:?}", (s, d, a, n)))) }
            }
            chk!(v, "C20", oq == fq * pre.qls as u128 && ob == fb * pre.bls as u128, "reduction released {}/{} lots but transferred {}/{} atoms", fq, fb, oq, ob);
            chk!(v, p, y.qf == x.qf && y.bf == x.bf, "free funds changed by a withdrawing reduction: {:?} -> {:?}", x, y);
        } else {
            chk!(v, p, y.qf as u128 == x.qf as u128 + fq && y.bf as u128 == x.bf as u128 + fb, "released {}/{} lots: {:?} -> {:?}", fq, fb, x, y);
        }
        chk!(v, p, y.ql as u128 + fq == x.ql as u128 && y.bl as u128 + fb == x.bl as u128, "locked funds {:?} -> {:?}, released {}/{}", x, y, fq, fb);
    } else {
        chk!(v, "C10", l.is_empty() && !pre.traders.contains_key(tk), "trader disappeared");
    }
}
fn multi(v: &mut V, st: &Step, evs: &[Ev], tr: &[(Pubkey, Pubkey, Pubkey, u64)], t: usize, ff: bool, bids: &[Cond], asks: &[Cond], cid: Option<u128>, beh: u8) {
    let (e, pre) = (st.env, st.pre);
    let tk = e.traders[t];
    let (fail_cross, skip) = (beh == 1 || beh == 3, beh == 2 || beh == 3);
    let hb = bids.iter().map(|c| c.price).max().unwrap_or(0);
    let la = asks.iter().map(|c| c.price).min().unwrap_or(u64::MAX);
    chk!(v, "C24", hb < la, "a batch whose own bids and asks cross was accepted");
    let x = pre.ts(&tk);
    let (mut fq, mut fb) = (x.qf as u128, x.bf as u128);
    let (wq, wb) = if ff { (0, 0) } else { ((st.pre_w.token_balance(&e.quote_acct(&tk)) / pre.qls) as u128, (st.pre_w.token_balance(&e.base_acct(&tk)) / pre.bls) as u128) };
    // skipping compares with what the trader had when the batch arrived, less what the batch used
    let (mut aq, mut ab) = (fq + wq, fb + wb);
    let mut books = [pre.bids.clone(), pre.asks.clone()];
    let mut oseq = pre.oseq;
    let mut at = 0;
    let (mut dq, mut db) = (0u128, 0u128);
    let mut ids = vec![];
    for (side, list) in [(0u8, bids), (1u8, asks)] {
        let mut l: Vec<Cond> = list.to_vec();
        l.sort_by(|a, b| if side == 0 { b.price.cmp(&a.price) } else { a.price.cmp(&b.price) });
        let mut g: Vec<Cond> = vec![];
        for c in l {
            match g.last_mut() {
                Some(y) if y.price == c.price && y.lvs == c.lvs && y.lvt == c.lvt => y.size = y.size.wrapping_add(c.size),
                _ => g.push(c),
            }
        }
        for c in g {
            let need_q = pre.val(c.price, c.size);
            let short = if side == 0 { aq < need_q } else { ab < c.size as u128 };
            if skip && short { continue; }
            let expd = c.lvs.map_or(false, |x| x < st.slot) || c.lvt.map_or(false, |x| x < st.ts);
            if expd { continue; }
            let q = Placement { side, kind: 0, price: Some(c.price), base: c.size, quote: 0, min_base: 0, min_quote: 0, stb: 1, ml: None, cid: cid.unwrap_or(0), reject: fail_cross, lvs: c.lvs, lvt: c.lvt };
            let (tt, used) = follow(v, st, &tk, &q, &mut books, &mut oseq, &evs[at.min(evs.len())..], [pre.sizes.0, pre.sizes.1]);
            at += used;
            match &tt.posted {
                None => {
                    v.push(("C24", format!("batch order {:?} side {} was neither posted nor skippable", c, side)));
                    return;
                }
                Some(o) => ids.push((o.price, o.seq)),
            }
            fq += tt.freed_q;
            fb += tt.freed_b;
            if side == 0 {
                let u = tt.post_q.min(fq);
                fq -= u;
                dq += tt.post_q - u;
                aq = aq.saturating_sub(tt.post_q);
            } else {
                let u = tt.post_b.min(fb);
                fb -= u;
                db += tt.post_b - u;
                ab = ab.saturating_sub(tt.post_b);
            }
        }
    }
    chk!(v, "C12", at == evs.len(), "unexpected events after the batch: {:?}", &evs[at.min(evs.len())..]);
    chk!(v, "C12", sorted(0, books[0].clone()) == st.post.bids && sorted(1, books[1].clone()) == st.post.asks, "book differs from the logged events; diff{}", diff(&Snap { bids: sorted(0, books[0].clone()), asks: sorted(1, books[1].clone()), ..st.post.clone() }, st.post));
    chk!(v, "C11", st.post.oseq == oseq, "order sequence number {} expected {}", st.post.oseq, oseq);
    chk!(v, "C11", ret_ids(st.out) == ids, "return data {:?}, placed {:?}", ret_ids(st.out), ids);
    let mut w = vec![];
    if dq > 0 { w.push((e.quote_acct(&tk), e.m.qv, tk, (dq * pre.qls as u128) as u64)) }
    if db > 0 { w.push((e.base_acct(&tk), e.m.bv, tk, (db * pre.bls as u128) as u64)) }
    if ff { chk!(v, "C20", w.is_empty(), "free-funds batch needed {}/{} lots of deposits", dq, db); }
    else { chk!(v, "C20", sort4(tr) == sort4(&w), "batch transfers {:?}, expected {:?}", tr, w); }
    if let Some(y) = st.post.traders.get(&tk) { chk!(v, "C20", y.qf as u128 == fq && y.bf as u128 == fb, "free funds {}/{} expected {}/{}", y.qf, y.bf, fq, fb); }
    makers(v, st, evs, &tk);
}
/// Instructions a user relies on to get out must not be refused.
fn must_succeed(v: &mut V, st: &Step, err: &str) {
    if st.tampered || !st.pre.exists { return; }
    if required(st).is_err() { return; }
    let e = st.env;
    let pre = st.pre;
    let roomy = pre.vq < 1 << 60 && pre.vb < 1 << 60 && pre.bids.iter().chain(&pre.asks).all(|o| o.price < 1 << 40);
    match st.op {
        Op::CancelAll { .. } => v.push(("C14", format!("cancel-all refused: {}", err))),
        Op::CancelUpTo { .. } | Op::CancelById { .. } => v.push(("C14", format!("cancel refused: {}", err))),
        Op::Reduce { t, side, price, seq, .. } => {
            if pre.book(*side).iter().any(|o| o.seq == *seq && o.price == *price && o.trader == e.traders[*t]) && (*seq >> 63 == 1) == (*side == 0) {
                v.push(("C09", format!("reduction of an own order refused: {}", err)));
            }
        }
        Op::ForceCancel { .. } => v.push(("C14", format!("force-cancel refused: {}", err))),
        Op::Withdraw { t, .. } => {
            if roomy && pre.traders.contains_key(&e.traders[*t]) { v.push(("C10", format!("withdrawal refused: {}", err))); }
        }
        Op::Evict { t, .. } => {
            let x = pre.ts(&e.traders[*t]);
            if pre.traders.contains_key(&e.traders[*t]) && x.ql == 0 && x.bl == 0 { v.push(("C10", format!("eviction of a trader without orders refused: {}", err))); }
        }
        Op::CollectFees { .. } => if roomy { v.push(("C05", format!("fee collection refused: {}", err))) },
        Op::Deposit { t, q, b } => {
            let tk = e.traders[*t];
            if roomy && (*q as u128 * pre.qls as u128) <= st.pre_w.token_balance(&e.quote_acct(&tk)) as u128 && (*b as u128 * pre.bls as u128) <= st.pre_w.token_balance(&e.base_acct(&tk)) as u128 && pre.traders.contains_key(&tk) {
                v.push(("C20", format!("funded deposit refused: {}", err)));
            }
        }
        Op::Claim { .. } | Op::NameSucc { .. } => v.push(("C17", format!("authorised change refused: {}", err))),
        Op::ChangeFee { .. } => v.push(("C17", format!("authorised fee recipient change refused: {}", err))),
        Op::Limit { t, ff, p } | Op::Swap { t, ff, p } => {
            // a valid, funded order must be accepted
            let is_swap = matches!(st.op, Op::Swap { .. });
            if is_swap != (p.kind == 2) || p.dep != *ff || !roomy { return; }
            if let Some(prop) = acceptable(st, &e.traders[*t], &pl(p), p.silent, *ff) {
                v.push((prop, format!("valid, funded order refused: {}", err)));
            }
        }
        Op::Multi { t, ff, bids, asks, beh, .. } => {
            let tk = e.traders[*t];
            if !roomy || *beh > 3 || !pre.traders.contains_key(&tk) { return; }
            let hb = bids.iter().map(|c| c.price).max().unwrap_or(0);
            let la = asks.iter().map(|c| c.price).min().unwrap_or(u64::MAX);
            if hb >= la || pre.bids.len() + bids.len() > pre.sizes.0 as usize || pre.asks.len() + asks.len() > pre.sizes.1 as usize { return; }
            if bids.iter().chain(asks).any(|c| c.price == 0 || c.price > 1 << 40 || c.size == 0 || c.size > 1 << 30 || pre.val(c.price, c.size) > 1 << 50) { return; }
            let live = |c: &Cond| !(c.lvs.map_or(false, |x| x < st.slot) || c.lvt.map_or(false, |x| x < st.ts));
            let x = pre.ts(&tk);
            let wallet = |k: Pubkey, l: u64| if *ff { 0 } else { (st.pre_w.token_balance(&k) / l) as u128 };
            let (aq, ab) = (x.qf as u128 + wallet(e.quote_acct(&tk), pre.qls), x.bf as u128 + wallet(e.base_acct(&tk), pre.bls));
            let bb = best(&pre.asks, 1, st.slot, st.ts).map_or(u64::MAX, |o| o.price);
            let ba = best(&pre.bids, 0, st.slot, st.ts).map_or(0, |o| o.price);
            if hb >= bb || la <= ba { return; }
            let nq: u128 = bids.iter().filter(|c| live(c)).map(|c| pre.val(c.price, c.size)).sum();
            let nb: u128 = asks.iter().filter(|c| live(c)).map(|c| c.size as u128).sum();
            if (nq <= aq && nb <= ab) || *beh == 2 || *beh == 3 {
                v.push(("C24", format!("batch of affordable or skippable orders refused: {}", err)));
            }
        }
        Op::ReqSeat { t } | Op::ReqSeatAuth { t, .. } => {
            if st.pre_w.get(&seat_key(&e.m.key, &e.traders[*t])).data.is_empty() { v.push(("C18", format!("request of a first seat refused: {}", err))); }
        }
        Op::SeatStatus { t, st: ns, .. } => {
            let o = seat_status(st.pre_w, &e.m.key, &e.traders[*t]).unwrap_or(9);
            let full = pre.traders.len() as u64 >= pre.sizes.2 && !pre.traders.contains_key(&e.traders[*t]);
            if matches!((o, *ns), (0, 1) | (1, 0) | (0, 2) | (1, 2)) && !full { v.push(("C18", format!("authorised seat change from {} to {} refused: {}", o, ns, err))); }
        }
        Op::Status { st: ns, .. } => {
            let last = pre.bids.is_empty() && pre.asks.is_empty() && pre.uncollected == 0 && pre.traders.is_empty();
            if matches!((pre.status, *ns as u64), (1, 2) | (1, 3) | (2, 1) | (2, 3) | (2, 4) | (4, 3) | (4, 2) | (3, 1) | (3, 2) | (3, 4)) || (pre.status == 4 && *ns == 5 && last) {
                v.push(("C16", format!("permitted status change from {} to {} refused: {}", pre.status, ns, err)));
            }
        }
        _ => {}
    }
}
/// Whether an order must be accepted: it is well formed, nothing forbids it and its trader can pay for what it does.
/// Some(property) names the property a refusal breaks.
fn acceptable(st: &Step, tk: &Pubkey, p: &Placement, silent: bool, ff: bool) -> Option<&'static str> {
    let (e, s) = (st.env, st.pre);
    let x = s.ts(tk);
    let known = s.traders.contains_key(tk);
    if !known && (p.kind != 2 || ff) { return None; }
    let lim = p.price.unwrap_or(if p.side == 0 { u64::MAX } else { 0 });
    if p.base > 1 << 40 || p.quote > 1 << 40 || (p.price.is_some() && lim > 1 << 40) { return None; }
    if p.kind == 2 && ((p.base == 0) == (p.quote == 0) || (p.quote > 0 && s.fee >= 10000)) { return None; }
    if (p.kind != 2 && p.base == 0) || (p.side == 0 && lim == 0) { return None; }
    let wallet = |k: Pubkey, l: u64| if ff { 0 } else { (st.pre_w.token_balance(&k) / l) as u128 };
    let (mut aq, mut ab) = (x.qf as u128 + wallet(e.quote_acct(tk), s.qls), x.bf as u128 + wallet(e.base_acct(tk), s.bls));
    let lim = if p.side == 1 && p.kind != 2 { lim.max(1) } else { lim };
    if p.kind != 2 && silent && (if p.side == 0 { aq < s.val(lim, p.base) } else { ab < p.base as u128 }) { return Some("C24"); }
    if p.lvs.map_or(false, |l| l < st.slot) || p.lvt.map_or(false, |l| l < st.ts) { return Some("C07"); }
    let opp = 1 - p.side;
    let full = s.book(p.side).len() as u64 >= s.sizes.0;
    let crosses = |pr: u64| if p.side == 0 { pr <= lim } else { pr >= lim };
    let mut book = sorted(opp, s.book(opp).clone());
    if p.kind == 0 {
        let b = best(&book, opp, st.slot, st.ts).filter(|o| crosses(o.price));
        if full { return None; }
        let at = match b { None => lim, Some(o) => { if p.reject || (p.side == 0 && o.price <= 1) { return None; } if p.side == 0 { o.price - 1 } else { o.price + 1 } } };
        let ok = if p.side == 0 { s.val(at, p.base) <= aq } else { p.base as u128 <= ab };
        return if ok { Some(if b_some(&book, opp, st, &crosses) { "C04" } else { "C20" }) } else { None };
    }
    let mut base = if p.base > 0 { p.base as u128 } else { u64::MAX as u128 };
    let mut quote = u64::MAX as u128;
    if p.quote > 0 {
        let m = u64::MAX as u128;
        let fee = fees(m, s.fee);
        quote = p.quote as u128 * s.blpu as u128 * m / if p.side == 0 { m + fee } else { m - fee };
    }
    let mut matches = p.ml.unwrap_or(u64::MAX);
    let (mut qa, mut got, mut own, mut old) = (0u128, 0u128, false, false);
    let mut stop = false;
    while !stop && base > 0 && quote > 0 && matches > 0 && !book.is_empty() && crosses(book[0].price) {
        let o = book[0].clone();
        let unit = o.price as u128 * s.tick as u128;
        if unit == 0 || unit * o.lots as u128 >= 1 << 62 { return None; }
        if o.expired(st.slot, st.ts) {
            old = true;
            if o.trader == *tk { if opp == 0 { aq += s.val(o.price, o.lots) } else { ab += o.lots as u128 } }
            book.remove(0);
            matches -= 1;
            continue;
        }
        let n = (o.lots as u128).min(base).min(quote / unit);
        if o.trader == *tk {
            own = true;
            match p.stb {
                0 => return None,
                1 => { if opp == 0 { aq += s.val(o.price, o.lots) } else { ab += o.lots as u128 } book.remove(0); }
                _ => {
                    if opp == 0 { aq += s.val(o.price, n as u64) } else { ab += n }
                    base -= n;
                    quote -= n * unit;
                    if n < o.lots as u128 { stop = true; book[0].lots -= n as u64 } else { book.remove(0); }
                }
            }
            matches -= 1;
            continue;
        }
        got += n;
        qa += n * unit;
        base -= n;
        quote -= n * unit;
        if n < o.lots as u128 { stop = true; book[0].lots -= n as u64 } else { book.remove(0); }
        matches -= 1;
    }
    let qv = qa / s.blpu as u128;
    let fee = fees(qv, s.fee);
    if got > 0 && s.status != 1 { return None; }
    if p.side == 1 && fee > qv { return None; }
    let net = if p.side == 0 { qv + fee } else { qv - fee };
    if p.kind == 2 && (got < p.min_base as u128 || net < p.min_quote as u128) { return None; }
    let mut post = 0u64;
    if p.kind == 1 && base > 0 && !best(&book, opp, st.slot, st.ts).map_or(false, |o| crosses(o.price)) {
        if full { return None; }
        post = base as u64;
    }
    let ok = if p.side == 0 { net + s.val(lim.min(1 << 41), post) <= aq } else { got + post as u128 <= ab };
    if !ok { return None; }
    Some(if own { "C06" } else if old { "C07" } else if p.min_base > 0 || p.min_quote > 0 { "C08" } else if p.quote > 0 { "C05" } else if p.kind == 2 { "C03" } else { "C20" })
}
fn b_some(book: &[Ord_], side: u8, st: &Step, crosses: &dyn Fn(u64) -> bool) -> bool {
    best(book, side, st.slot, st.ts).map_or(false, |o| crosses(o.price))
}

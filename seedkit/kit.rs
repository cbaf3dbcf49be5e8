//! Scenario helpers for the demonstrations: a market over stub accounts, driven through process_instruction.
use crate::env::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub fn std_params() -> Params {
    Params { sizes: (512, 512, 128), qlpu: 1000, tick: 1000, blpu: 100, fee: 5, raw: None, bdec: 9, qdec: 6 }
}
/// Active market, five traders 0..5 funded; 0..=3 with approved seats.
pub fn setup(p: Params) -> Env {
    install();
    let mut w = World::new();
    let (bm, qm) = (key(b'B', 1), key(b'Q', 1));
    let b = body_size(p.sizes).unwrap();
    let (m, o) = mk_market(&mut w, 3, p.clone(), bm, qm, b);
    assert!(o.res.is_ok(), "init {:?}", o.res);
    let (m2, o) = mk_market(&mut w, 4, p, bm, qm, b);
    assert!(o.res.is_ok(), "init {:?}", o.res);
    let traders: Vec<Pubkey> = (0..5).map(|i| key(b'T', 10 + i)).collect();
    let mut e = Env { w, m, m2, traders };
    for t in e.traders.clone() {
        e.w.accts.insert(t, Acct { owner: SYS, lamports: 1 << 40, data: vec![] });
        e.w.add_token(Env::ata(&t, &qm), qm, t, 1 << 50);
        e.w.add_token(Env::ata(&t, &bm), bm, t, 1 << 50);
    }
    e.w.add_token(Env::ata(&e.m.creator.clone(), &qm), qm, e.m.creator, 0);
    for _ in 0..2 {
        let auth = e.m.creator;
        for t in 0..4 {
            ok(&mut e, Op::ReqSeatAuth { auth, t });
            ok(&mut e, Op::SeatStatus { auth, t, st: 1 });
        }
        ok(&mut e, Op::Status { auth, st: 1, recv: None });
        let Env { m, m2, .. } = &mut e;
        std::mem::swap(m, m2);
    }
    e
}
pub fn run(e: &mut Env, op: Op) -> Outcome {
    let (m, d) = e.build(&op);
    e.w.exec(&m, &d)
}
pub fn ok(e: &mut Env, op: Op) -> Outcome {
    let o = run(e, op.clone());
    if let Err(x) = &o.res {
        panic!("{:?} refused: {}", op, x);
    }
    o
}
pub fn p0(side: u8, price: u64, base: u64) -> P {
    P { kind: 1, side, price: Some(price), base, quote: 0, min_base: 0, min_quote: 0, stb: 1, ml: None, cid: 7, reject: false, dep: false, lvs: None, lvt: None, silent: false }
}
pub fn limit(t: usize, side: u8, price: u64, base: u64) -> Op {
    Op::Limit { t, ff: false, p: p0(side, price, base) }
}
pub fn post(t: usize, side: u8, price: u64, base: u64) -> Op {
    Op::Limit { t, ff: false, p: P { kind: 0, ..p0(side, price, base) } }
}
pub fn ioc(t: usize, side: u8, price: Option<u64>, base: u64) -> Op {
    Op::Swap { t, ff: false, p: P { kind: 2, price, ..p0(side, 0, base) } }
}
pub fn evs(o: &Outcome) -> Vec<Ev> {
    let mut r = vec![];
    for c in &o.cpis {
        if let Cpi::Log(data) = c {
            r.extend(decode_batch(data).unwrap().evs.into_iter().map(|x| x.1));
        }
    }
    r
}
/// vaults back exactly what the market owes
pub fn solvent(e: &Env) -> bool {
    let s = e.snap();
    let q: u64 = s.traders.values().map(|t| t.qf + t.ql).sum::<u64>() + s.uncollected;
    let b: u64 = s.traders.values().map(|t| t.bf + t.bl).sum();
    q * s.qls == s.vq && b * s.bls == s.vb
}
pub fn check(name: &str, c: bool) {
    eprintln!("{} {}", if c { "holds:" } else { "BROKEN:" }, name);
    if !c {
        std::process::exit(1);
    }
}
/// depth of one side: (price, lots) per level
pub fn depth(e: &Env, side: u8, levels: u64, slot: Option<u64>, ts: Option<u64>) -> Vec<(u64, u64)> {
    let d = e.w.get(&e.m.key).data;
    let sp = size_params(&d);
    let mut buf = vec![0u64; d.len() / 8 + 1];
    let bytes = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, d.len()) };
    bytes.copy_from_slice(&d);
    let m = phoenix::program::load_with_dispatch(&sp, &bytes[576..]).unwrap().inner;
    let l = m.get_ladder_with_expiration(levels, slot, ts);
    (if side == 0 { l.bids } else { l.asks }).iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect()
}

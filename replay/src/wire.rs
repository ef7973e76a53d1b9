//! Layouts of the program's accounts as stored on chain, restated here so that reading
//! them does not go through the code under test.
use solana_program::pubkey::Pubkey;

macro_rules! pod { ($($t:ident),*) => { $( impl $t { pub fn read(d: &[u8]) -> Self { assert!(d.len() >= std::mem::size_of::<$t>()); unsafe { std::ptr::read_unaligned(d.as_ptr() as *const $t) } } } )* } }

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WMarket {
    pub bump: u8,
    pub base_decimals: u8,
    pub quote_decimals: u8,
    pub padding1: [u8; 5],
    pub market_authority: Pubkey,
    pub time_expiry: i64,
    pub collect_fee_admin: Pubkey,
    pub open_orders_admin: Pubkey,
    pub consume_events_admin: Pubkey,
    pub close_market_admin: Pubkey,
    pub name: [u8; 16],
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub event_heap: Pubkey,
    pub oracle_a: Pubkey,
    pub oracle_b: Pubkey,
    pub conf_filter: f64,
    pub max_staleness_slots: i64,
    pub oracle_reserved: [u8; 72],
    pub quote_lot_size: i64,
    pub base_lot_size: i64,
    pub seq_num: u64,
    pub registration_time: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub fees_accrued: u128,
    pub fees_to_referrers: u128,
    pub referrer_rebates_accrued: u64,
    pub fees_available: u64,
    pub maker_volume: u128,
    pub taker_volume_wo_oo: u128,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub market_base_vault: Pubkey,
    pub base_deposit_total: u64,
    pub market_quote_vault: Pubkey,
    pub quote_deposit_total: u64,
    pub reserved: [u8; 128],
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WOrder {
    pub id: u128,
    pub client_id: u64,
    pub locked_price: i64,
    pub is_free: u8,
    pub side_and_tree: u8,
    pub padding: [u8; 6],
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WOo {
    pub owner: Pubkey,
    pub market: Pubkey,
    pub name: [u8; 32],
    pub delegate: Pubkey,
    pub account_num: u32,
    pub bump: u8,
    pub version: u8,
    pub padding: [u8; 2],
    pub bids_base_lots: i64,
    pub asks_base_lots: i64,
    pub base_free_native: u64,
    pub quote_free_native: u64,
    pub locked_maker_fees: u64,
    pub referrer_rebates_available: u64,
    pub penalty_heap_count: u64,
    pub maker_volume: u128,
    pub taker_volume: u128,
    pub bids_quote_lots: i64,
    pub reserved: [u8; 64],
    pub orders: [WOrder; 24],
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WLeaf {
    pub tag: u8,
    pub owner_slot: u8,
    pub time_in_force: u16,
    pub padding: [u8; 4],
    pub key: u128,
    pub owner: Pubkey,
    pub quantity: i64,
    pub timestamp: u64,
    pub peg_limit: i64,
    pub client_order_id: u64,
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WInner {
    pub tag: u8,
    pub padding: [u8; 3],
    pub prefix_len: u32,
    pub key: u128,
    pub children: [u32; 2],
    pub expiry: [u64; 2],
    pub reserved: [u8; 40],
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WFill {
    pub event_type: u8,
    pub taker_side: u8,
    pub maker_out: u8,
    pub maker_slot: u8,
    pub padding: [u8; 4],
    pub timestamp: u64,
    pub market_seq_num: u64,
    pub maker: Pubkey,
    pub maker_timestamp: u64,
    pub taker: Pubkey,
    pub taker_client_order_id: u64,
    pub price: i64,
    pub peg_limit: i64,
    pub quantity: i64,
    pub maker_client_order_id: u64,
    pub reserved: [u8; 8],
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct WOut {
    pub event_type: u8,
    pub side: u8,
    pub owner_slot: u8,
    pub padding0: [u8; 5],
    pub timestamp: u64,
    pub seq_num: u64,
    pub owner: Pubkey,
    pub quantity: i64,
    pub padding1: [u8; 80],
}

pod!(WMarket, WOo, WLeaf, WInner, WFill, WOut);

pub const MARKET_LEN: usize = 8 + 840;
pub const OO_LEN: usize = 8 + 1256;
pub const SIDE_LEN: usize = 8 + 90944;
pub const HEAP_LEN: usize = 8 + 91280;
pub const MAX_NODES: usize = 1024;
pub const MAX_EVENTS: usize = 600;
pub const NO_NODE: u16 = u16::MAX;

pub fn market(d: &[u8]) -> WMarket {
    assert_eq!(std::mem::size_of::<WMarket>(), 840);
    WMarket::read(&d[8..])
}
pub fn oo(d: &[u8]) -> WOo {
    assert_eq!(std::mem::size_of::<WOo>(), 1256);
    WOo::read(&d[8..])
}

fn u32at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
fn u16at(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}

pub struct Side<'a> {
    d: &'a [u8],
}
impl<'a> Side<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        assert!(d.len() == SIDE_LEN);
        Side { d: &d[8..] }
    }
    pub fn root(&self, i: usize) -> (u32, u32) {
        (u32at(self.d, i * 8), u32at(self.d, i * 8 + 4))
    }
    const N: usize = 6 * 8 + 256;
    pub fn tree_type(&self) -> u8 {
        self.d[Self::N]
    }
    pub fn bump(&self) -> u32 {
        u32at(self.d, Self::N + 4)
    }
    pub fn free_len(&self) -> u32 {
        u32at(self.d, Self::N + 8)
    }
    pub fn free_head(&self) -> u32 {
        u32at(self.d, Self::N + 12)
    }
    pub fn node(&self, h: u32) -> &'a [u8] {
        let o = Self::N + 16 + 512 + 88 * h as usize;
        &self.d[o..o + 88]
    }

    /// All leaves of a section in key order, after checking that the section is a well-formed tree.
    pub fn leaves(&self, i: usize, used: &mut Vec<bool>) -> Result<Vec<WLeaf>, String> {
        let (root, count) = self.root(i);
        let mut out = vec![];
        if count == 0 {
            return Ok(out);
        }
        self.walk(root, 0, 0, &mut out, used)?;
        if out.len() != count as usize {
            return Err(format!("section {i} has {} orders but counts {count}", out.len()));
        }
        for w in out.windows(2) {
            if { w[0].key } >= { w[1].key } {
                return Err(format!("section {i}: keys out of order"));
            }
        }
        Ok(out)
    }

    fn walk(&self, h: u32, min_prefix: u32, depth: u32, out: &mut Vec<WLeaf>, used: &mut Vec<bool>) -> Result<u64, String> {
        if h as usize >= MAX_NODES || h >= self.bump() {
            return Err(format!("node handle {h} out of range"));
        }
        if used[h as usize] {
            return Err(format!("node {h} reachable twice"));
        }
        used[h as usize] = true;
        let n = self.node(h);
        match n[0] {
            1 => {
                let inner = WInner::read(n);
                let pl = inner.prefix_len;
                if pl >= 128 || (depth > 0 && pl < min_prefix) {
                    return Err(format!("node {h}: prefix length {pl}"));
                }
                let ch = inner.children;
                let ex = inner.expiry;
                let start = out.len();
                let e0 = self.walk(ch[0], pl + 1, depth + 1, out, used)?;
                let mid = out.len();
                let e1 = self.walk(ch[1], pl + 1, depth + 1, out, used)?;
                let mask = 1u128 << (127 - pl);
                for (j, l) in out[start..].iter().enumerate() {
                    let k = l.key;
                    let ik = inner.key;
                    if (k ^ ik).leading_zeros() < pl {
                        return Err(format!("node {h}: leaf key outside prefix"));
                    }
                    if ((k & mask) != 0) != (start + j >= mid) {
                        return Err(format!("node {h}: leaf on the wrong branch"));
                    }
                }
                if ex != [e0, e1] {
                    return Err(format!("expiry: node {h} records {:?}, children have {:?}", ex, [e0, e1]));
                }
                Ok(e0.min(e1))
            }
            2 => {
                let l = WLeaf::read(n);
                out.push(l);
                let tif = l.time_in_force;
                Ok(if tif == 0 { u64::MAX } else { l.timestamp + tif as u64 })
            }
            t => Err(format!("node {h} reachable but has tag {t}")),
        }
    }

    /// Both sections plus the list of unused nodes; everything must add up.
    pub fn check(&self) -> Result<[Vec<WLeaf>; 2], String> {
        let mut used = vec![false; MAX_NODES];
        let a = self.leaves(0, &mut used)?;
        let b = self.leaves(1, &mut used)?;
        let mut h = self.free_head();
        let len = self.free_len();
        for k in 0..len {
            if h as usize >= MAX_NODES || h >= self.bump() {
                return Err(format!("free list handle {h} out of range"));
            }
            if used[h as usize] {
                return Err(format!("free node {h} is in use or listed twice"));
            }
            used[h as usize] = true;
            let n = self.node(h);
            let want = if k + 1 == len { 4 } else { 3 };
            if n[0] != want {
                return Err(format!("free node {h} has tag {}", n[0]));
            }
            h = u32at(n, 4);
        }
        let total = used.iter().filter(|x| **x).count();
        if total != self.bump() as usize {
            return Err(format!("{} nodes handed out, {} accounted for", self.bump(), total));
        }
        Ok([a, b])
    }
}

#[derive(Clone, Copy)]
pub enum WEvent {
    Fill(WFill),
    Out(WOut),
}

pub struct Heap<'a> {
    d: &'a [u8],
}
impl<'a> Heap<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        assert!(d.len() == HEAP_LEN);
        Heap { d: &d[8..] }
    }
    pub fn free_head(&self) -> u16 {
        u16at(self.d, 0)
    }
    pub fn used_head(&self) -> u16 {
        u16at(self.d, 2)
    }
    pub fn count(&self) -> u16 {
        u16at(self.d, 4)
    }
    pub fn seq(&self) -> u64 {
        u64::from_le_bytes(self.d[8..16].try_into().unwrap())
    }
    fn node(&self, i: u16) -> &'a [u8] {
        let o = 16 + i as usize * 152;
        &self.d[o..o + 152]
    }
    fn next(&self, i: u16) -> u16 {
        u16at(self.node(i), 0)
    }
    fn prev(&self, i: u16) -> u16 {
        u16at(self.node(i), 2)
    }
    fn event(&self, i: u16) -> Result<WEvent, String> {
        let n = &self.node(i)[8..];
        match n[0] {
            0 => Ok(WEvent::Fill(WFill::read(n))),
            1 => Ok(WEvent::Out(WOut::read(n))),
            t => Err(format!("event of unknown kind {t}")),
        }
    }
    /// Events in queue order with their slots, after checking both lists.
    pub fn check(&self) -> Result<Vec<(u16, WEvent)>, String> {
        let mut seen = vec![false; MAX_EVENTS];
        let mut out = vec![];
        let n = self.count();
        if n as usize > MAX_EVENTS {
            return Err(format!("event count {n}"));
        }
        if n == 0 {
            if self.used_head() != NO_NODE {
                return Err("empty queue with a head".into());
            }
        } else {
            let mut i = self.used_head();
            for k in 0..n {
                if i as usize >= MAX_EVENTS || seen[i as usize] {
                    return Err(format!("used list broken at {i}"));
                }
                seen[i as usize] = true;
                out.push((i, self.event(i)?));
                let nx = self.next(i);
                if nx as usize >= MAX_EVENTS || self.prev(nx) != i {
                    return Err(format!("used list link broken at {i}"));
                }
                i = nx;
                if (k + 1 == n) != (i == self.used_head()) {
                    return Err("used list length".into());
                }
            }
        }
        let mut i = self.free_head();
        let mut free = 0;
        while i != NO_NODE {
            if i as usize >= MAX_EVENTS || seen[i as usize] {
                return Err(format!("free list broken at {i}"));
            }
            if self.prev(i) != NO_NODE {
                return Err(format!("free place {i} looks used"));
            }
            seen[i as usize] = true;
            free += 1;
            i = self.next(i);
        }
        if free + n as usize != MAX_EVENTS {
            return Err(format!("{free} free and {n} used places"));
        }
        Ok(out)
    }
}

pub open spec fn leaf_expiry(l: LeafNode) -> int { if l.time_in_force == 0 { u64::MAX as int } else { l.timestamp + l.time_in_force } }
pub open spec fn leaf_expired(l: LeafNode, now: int) -> bool { l.time_in_force > 0 && now >= l.timestamp + l.time_in_force }

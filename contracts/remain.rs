// ---- accounts passed in addition (R14): a list of trader accounts, found by address -------------------
pub type VxAccs = Vec<VxAcc<OpenOrdersAccount>>;
pub open spec fn key_at(s: Seq<VxAcc<OpenOrdersAccount>>, i: int, k: Pubkey) -> bool { 0 <= i < s.len() && s[i].key == k && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).key != k }
pub open spec fn no_key(s: Seq<VxAcc<OpenOrdersAccount>>, k: Pubkey) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).key != k }
/// account `i` of the list changed, nothing else
pub open spec fn acc_at(s: Seq<VxAcc<OpenOrdersAccount>>, t: Seq<VxAcc<OpenOrdersAccount>>, i: int) -> bool {
    0 <= i < s.len() && t.len() == s.len() && t[i].key == s[i].key && t == s.update(i, t[i])
}
/// `iter().find(|a| a.key == k)`
pub fn vx_find_acc<'a>(v: &'a mut VxAccs, k: &Pubkey) -> (r: Option<&'a mut VxAcc<OpenOrdersAccount>>)
    ensures match r {
        None => final(v)@ == old(v)@ && no_key(old(v)@, *k),
        Some(a) => exists|i: int| #[trigger] key_at(old(v)@, i, *k) && *a == old(v)@[i] && final(v)@ == old(v)@.update(i, *final(a)),
    }
{
    let n = v.len();
    let mut i: usize = 0;
    while i < n
        invariant n == v.len(), i <= n, v@ == old(v)@, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).key != *k
        decreases n - i
    {
        if v[i].key == *k { assert(key_at(v@, i as int, *k)); return Some(&mut v[i]); }
        i += 1;
    }
    None
}
/// `AccountLoader::try_from`: only an account of the right type
#[verifier::external_body]
pub fn vx_loader<'a>(a: &'a mut VxAcc<OpenOrdersAccount>) -> (r: Result<&'a mut VxAcc<OpenOrdersAccount>>)
    ensures match r { Ok(x) => *x == *old(a) && *final(a) == *final(x) && old(a).typed, Err(_) => *final(a) == *old(a) } { unimplemented!() }
//@rw remaining_accs.iter().find(|ai| ai.key == &$k) => vx_find_acc(remaining_accs, &$k)
//@rw AccountLoader::try_from($x) => vx_loader($x)
//@type AccountLoader<OpenOrdersAccount> => &mut VxAcc<OpenOrdersAccount>
//@type &'c [AccountInfo<'info>] => &mut VxAccs


// ---- optional addresses: all zero bytes means none ----------------------------------------------
impl NonZeroPubkeyOption {
#[verifier::external_body]
pub fn zeroed() -> (r: NonZeroPubkeyOption) ensures r.key == zero_key() { unimplemented!() }
//@rw Self::zeroed() => NonZeroPubkeyOption::zeroed()
//@fn pubkey_option.rs NonZeroPubkeyOption::is_some
    ensures r == (opt_key(*self) is Some)
//@endfn
//@fn pubkey_option.rs NonZeroPubkeyOption::is_none
    ensures r == (opt_key(*self) is None)
//@endfn
}
//@fn pubkey_option.rs From<NonZeroPubkeyOption>@Option::from as=vx_opt_key
    ensures r == opt_key(pubkey_option)
//@type Self => Option<Pubkey>
//@endfn
//@rw Option::from($x) => vx_opt_key($x)
//@fn pubkey_option.rs From<Option<Pubkey>>@NonZeroPubkeyOption::from as=vx_key_opt
    ensures opt_key(r) == (if normal_option == Some(zero_key()) { None } else { normal_option })
//@type Self => NonZeroPubkeyOption
//@rw Self { key } => NonZeroPubkeyOption { key }
//@endfn
impl NonZeroPubkeyOption {
//@fn pubkey_option.rs PartialEq<Pubkey>@NonZeroPubkeyOption::eq as=vx_eq_key
    ensures r == (opt_key(*self) == Some(*other))
//@endfn
}
impl Pubkey {
//@fn pubkey_option.rs PartialEq<NonZeroPubkeyOption>@Pubkey::eq as=vx_eq_opt
    ensures r == (opt_key(*other) == Some(*self))
//@endfn
}

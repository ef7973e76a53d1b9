pub open spec fn nzk(o: Option<VxInfo>) -> Option<Pubkey> { if o is Some && (o->0).key != zero_key() { Some((o->0).key) } else { None } }
//@rw $x.key() => $x.key
//@fn pubkey_option.rs NonZeroKey@Option::non_zero_key as=vx_non_zero_key selfty=&Option<VxInfo>
    ensures opt_key(r) == nzk(*vx_self)
//@rw $x.into() => vx_key_opt($x)
//@endfn
//@rw $x.non_zero_key() => vx_non_zero_key(&$x)

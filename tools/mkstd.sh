set -e
S=$(rustc --print sysroot)/lib/rustlib/src/rust
D=$1
mkdir -p $D && cp -a $S/library $D/ 
python3 - $D/library/core/src/hash/sip.rs <<'P'
import sys,re
p=sys.argv[1]; s=open(p).read()
i=s.index("impl<S: Sip> super::Hasher for Hasher<S>")
j=s.index("impl<S: Sip> Clone for Hasher<S>")
s=s[:i]+'''impl<S: Sip> super::Hasher for Hasher<S> {
    // vp_hash_get() == 0: every key has hash 0 (iteration order = insertion order); otherwise an order
    // selected by the number, over concrete keys
    #[inline]
    fn write(&mut self, msg: &[u8]) { unsafe { if vp_hash_get() != 0 { let mut i = 0; while i < msg.len() { self.length = self.length.wrapping_mul(31).wrapping_add(msg[i] as usize); i += 1; } } } }
    #[inline]
    fn write_str(&mut self, s: &str) { self.write(s.as_bytes()); }
    #[inline]
    fn finish(&self) -> u64 { unsafe { let m = vp_hash_get(); if m == 0 { 0 } else { let x = (self.length as u64 ^ m).wrapping_mul(0x9E37_79B9_7F4A_7C15 ^ (m << 1)); (x >> 29) ^ x } } }
}

'''+s[j:]
s="#![allow(dead_code)]\n"+s+"\nunsafe extern \"C\" { fn vp_hash_get() -> u64; }\n"
open(p,'w').write(s)
P
# the standard library the repository is normally linked with takes the exact fast path first
sed -i 's/if !cfg!(feature = "optimize_for_size") {/if true {/' $D/library/core/src/num/imp/dec2flt/mod.rs

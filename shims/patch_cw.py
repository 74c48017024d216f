import re,glob
def rd(f): return open(f).read()
def wr(f,s): open(f,'w').write(s)
def sub(f,a,b):
    s=rd(f); assert a in s,(f,a); wr(f,s.replace(a,b,1))
S='src/'
s=rd(S+'lib.rs')
i=s.index('/// Exposed for testing only'); j=s.index('// Re-exports')
s=s[:i]+s[j:]
s=s.replace('extern crate alloc;','#![allow(warnings)]\nextern crate alloc;',1).replace('mod addresses;','mod sym;\nmod addresses;',1)
wr(S+'lib.rs',s)
wr(S+'sym.rs','''//! Symbolic build only: textual form of symbolic numbers.
use core::fmt;
pub(crate) fn fmt_num<T: Copy>(x: &T, kind: u8, f: &mut fmt::Formatter) -> Option<fmt::Result> {
    let mut y = *x;
    let by = unsafe { core::slice::from_raw_parts_mut(&mut y as *mut T as *mut u8, core::mem::size_of::<T>()) };
    let mut buf = [0u8; 24];
    let n = symrt::fmt_placeholder(by, kind, &mut buf)?;
    Some(f.write_str(unsafe { core::str::from_utf8_unchecked(&buf[..n]) }))
}
pub(crate) fn parse_num<T: Copy>(s: &str, kind: u8, zero: T) -> Option<Option<T>> {
    let mut y = zero;
    let by = unsafe { core::slice::from_raw_parts_mut(&mut y as *mut T as *mut u8, core::mem::size_of::<T>()) };
    match symrt::parse_placeholder(s.as_bytes(), kind, by)? {
        true => Some(Some(y)),
        false => Some(None),
    }
}
''')
for f in ('errors/verification_error.rs','errors/recover_pubkey_error.rs'):
    s=rd(S+f)
    s=re.sub(r'#\[cfg\(not\(target_arch = "wasm32"\)\)\]\nuse cosmwasm_crypto::CryptoError;\n','',s)
    i=s.index('#[cfg(not(target_arch = "wasm32"))]\nimpl From<CryptoError>')
    j=s.index('\n}\n',i)+3
    s=s[:i]+s[j:]
    wr(S+f,s)
# strip unit tests (they need the testing module)
for f in glob.glob('src/**/*.rs',recursive=True):
    s=rd(f)
    m=re.search(r'(?m)^#\[cfg\(test\)\]\nmod tests? \{',s)
    if m:
        s=s[:m.start()]
        wr(f,s)
for (f,t) in (('uint128','Uint128'),('uint64','Uint64')):
    p=S+f'math/{f}.rs'
    sub(p,f'''impl fmt::Display for {t} {{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{
''',f'''impl fmt::Display for {t} {{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{
        if let Some(r) = crate::sym::fmt_num(&self.0, b'U', f) {{
            return r;
        }}
''')
sub(S+'math/uint128.rs','        match s.parse::<u128>() {',"""        if let Some(r) = crate::sym::parse_num(s, b'U', 0u128) {
            return r.map(Uint128).ok_or_else(|| StdError::generic_err("Parsing u128: number too large to fit in target type"));
        }
        match s.parse::<u128>() {""")
sub(S+'math/uint64.rs','        match val.parse::<u64>() {',"""        if let Some(r) = crate::sym::parse_num(val, b'U', 0u64) {
            return r.map(Uint64).ok_or_else(|| StdError::generic_err("Parsing u64: number too large to fit in target type"));
        }
        match val.parse::<u64>() {""")
for f,t,u in (('decimal','Decimal','Uint128'),('decimal256','Decimal256','Uint256')):
    p=S+f'math/{f}.rs'
    s=rd(p)
    k=f'impl fmt::Display for {t} {{\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{\n'
    assert k in s,p
    s=s.replace(k,k+"        if let Some(r) = crate::sym::fmt_num(&self.0, b'D', f) {\n            return r;\n        }\n",1)
    k='    fn from_str(input: &str) -> Result<Self, Self::Err> {\n'
    assert k in s
    s=s.replace(k,k+f"        if let Some(r) = crate::sym::parse_num(input, b'D', {u}::zero()) {{\n            return r.map(Self).ok_or_else(|| StdError::generic_err(\"Value too big\"));\n        }}\n",1)
    wr(p,s)
sub(S+'math/decimal.rs','''        fn inner(mut x: Decimal, mut n: u32) -> Result<Decimal, OverflowError> {''','''        {
            let mut out = 0u128;
            let b = self.0.u128();
            match unsafe { symrt::__sym_dec_pow(&b as *const u128 as *const u8, exp, &mut out as *mut u128 as *mut u8) } {
                0 => {}
                1 => return Ok(Decimal(Uint128::new(out))),
                _ => {
                    return Err(OverflowError {
                        operation: OverflowOperation::Pow,
                        operand1: self.to_string(),
                        operand2: String::from("?"),
                    })
                }
            }
        }
        fn inner(mut x: Decimal, mut n: u32) -> Result<Decimal, OverflowError> {''')
sub(S+'math/isqrt.rs','        let mut x0 = self >> 1;','''        if unsafe { symrt::__sym_is_symbolic(&self as *const I as *const u8, core::mem::size_of::<I>()) } {
            let mut out = self;
            unsafe { symrt::__sym_isqrt(&self as *const I as *const u8, core::mem::size_of::<I>(), &mut out as *mut I as *mut u8) };
            return out;
        }
        let mut x0 = self >> 1;''')
s=rd(S+'math/uint512.rs')
a='''        let mut bytes = [0u8; 64];
        bytes[32..].copy_from_slice(&val.to_be_bytes());

        Self::from_be_bytes(bytes)
'''
assert a in s
s=s.replace(a,'''        let d = val.0.digits();
        Self(U512::from_digits([d[0], d[1], d[2], d[3], 0, 0, 0, 0]))
''')
wr(S+'math/uint512.rs',s)
s=rd(S+'math/uint256.rs')
wr(S+'math/uint256.rs',s)
s=rd('Cargo.toml')
if 'symrt' not in s:
    s=s.replace('[dependencies.base64]','[dependencies.symrt]\npath = "../../symrt"\n\n[dependencies.base64]')
wr('Cargo.toml',s)

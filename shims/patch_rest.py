import re
def rd(f): return open(f).read()
def wr(f,s): open(f,'w').write(s)
f='cosmwasm-std/src/math/uint512.rs'
s=rd(f)
i=s.index('        let bytes = value.to_be_bytes();\n        let (first_bytes'); j=s.index('\n    }\n',i)
s=s[:i]+'''        let d = *value.0.digits();
        let mut lim = [0u64; 8];
        lim[4] = 1;
        if value.0 >= U512::from_digits(lim) {
            return Err(ConversionOverflowError::new(
                "Uint512",
                "Uint256",
                value.to_string(),
            ));
        }
        Ok(Uint256(bnum::types::U256::from_digits([d[0], d[1], d[2], d[3]])))'''+s[j:]
wr(f,s)
for d in ('serde-json-wasm-05','serde-json-wasm-10'):
    f=d+'/src/ser/mod.rs'
    s=rd(f)
    a='''        let mut buf = [0u8; $N];

        let mut v = $v;
        let mut i = $N - 1;
        loop {
            buf[i] = (v % 10)'''
    assert a in s
    s=s.replace(a,'''        let mut v = $v;
        {
            let mut ph = [0u8; 24];
            let mut w = v;
            let by = unsafe { core::slice::from_raw_parts_mut(&mut w as *mut _ as *mut u8, core::mem::size_of_val(&w)) };
            if let Some(n) = symrt::fmt_placeholder(by, b'U', &mut ph) {
                $self.buf.extend_from_slice(&ph[..n]);
                return Ok(());
            }
            v = w;
        }
        let mut buf = [0u8; $N];
        let mut i = $N - 1;
        loop {
            buf[i] = (v % 10)''')
    wr(f,s)
    f=d+'/src/de/mod.rs'
    s=rd(f)
    i=s.index('macro_rules! deserialize_unsigned'); j=s.index("            b'-' => Err(Error::InvalidNumber),",i)
    s=s[:j]+'''            b'#' => {
                let start = $self.index;
                $self.eat_char();
                loop {
                    match $self.peek() {
                        Some(b'#') => {
                            $self.eat_char();
                            break;
                        }
                        Some(_) => $self.eat_char(),
                        None => return Err(Error::InvalidNumber),
                    }
                }
                let mut number: $uxx = 0;
                let by = unsafe { core::slice::from_raw_parts_mut(&mut number as *mut $uxx as *mut u8, core::mem::size_of::<$uxx>()) };
                match symrt::parse_placeholder(&$self.slice[start..$self.index], b'U', by) {
                    Some(true) => $visitor.$visit_uxx(number),
                    _ => Err(Error::InvalidNumber),
                }
            }
'''+s[j:]
    s=s.replace("            b'0'..=b'9' => {\n                deserialize_unsigned!(self, visitor, u64, visit_u64)","            b'0'..=b'9' | b'#' => {\n                deserialize_unsigned!(self, visitor, u64, visit_u64)")
    wr(f,s)
    f=d+'/Cargo.toml'
    s=rd(f)
    s=s.replace('[dependencies.serde]','[dependencies.symrt]\npath = "../../symrt"\n\n[dependencies.serde]',1)
    assert 'symrt' in s
    wr(f,s)
    f=d+'/src/lib.rs'; s=rd(f); s=s.replace('#![forbid(unsafe_code)]','').replace('#![deny(missing_docs)]',''); wr(f,s)

import re
def sub(f,a,b,n=1):
    s=open(f).read()
    assert s.count(a)>=1,(f,a)
    s=s.replace(a,b) if n==0 else s.replace(a,b,n)
    open(f,'w').write(s)
B='src/buint/'
# lib features
sub('src/lib.rs','#![doc = include_str!("../README.md")]','#![feature(core_intrinsics, const_eval_select)]\n#![allow(internal_features, warnings)]\n')
sub('src/lib.rs','mod bint;\n','mod sym;\nmod bint;\n')
open('src/sym.rs','w').write('''//! Symbolic build only: at run time the multi-word primitives are single engine operations.
pub(crate) unsafe fn op<T, U>(op: usize, a: *const T, b: *const T, out: *mut U) -> usize {
    symrt::__sym_bigop(op, core::mem::size_of::<T>() / 8, a as *const u64, b as *const u64, out as *mut u64)
}
pub(crate) unsafe fn shift<T>(k: usize, a: *const T, by: u32, out: *mut T) -> usize {
    symrt::__sym_bigop(k, core::mem::size_of::<T>() / 8, a as *const u64, by as usize as *const u64, out as *mut u64)
}
''')
def wrap(f, name, sig_args, call_args, ret, rt, unsafe=False, vis=None):
    """rename `const fn name` to name_ct and add a dispatcher"""
    s=open(f).read()
    m=re.search(r'(?P<head>(?:[ \t]*#\[[^\n]*\]\n)*)(?P<ind>[ \t]*)(?P<sig>(?:pub(?:\(crate\))? )?const (?:unsafe )?fn %s\()'%re.escape(name), s)
    assert m,(f,name)
    u='unsafe ' if unsafe else ''
    v=re.match(r'(pub(?:\(crate\))? )?',m.group('sig')).group(0)
    disp=f'''{m.group('head')}{m.group('ind')}{v}const {u}fn {name}({sig_args}) -> {ret} {{
                fn rt<const N: usize>({rt[0]}) -> {ret.replace('Self',rt[2])} {{ {rt[1]} }}
                const fn ct<const N: usize>({rt[0]}) -> {ret.replace('Self',rt[2])} {{ {'unsafe { ' if unsafe else ''}{rt[3]}{' }' if unsafe else ''} }}
                core::intrinsics::const_eval_select({call_args}, ct::<N>, rt::<N>)
            }}
            #[inline]
            const {u}fn {name}_ct('''
    s=s[:m.start()]+disp+s[m.end():]
    open(f,'w').write(s)
BU='$BUint<N>'
bin2=f'a: {BU}, b: {BU}'
for nm,k in (('overflowing_add',0),('overflowing_sub',1)):
    wrap(B+'overflowing.rs',nm,'self, rhs: Self','(self, rhs)','(Self, bool)',(bin2,f'let mut o = {BU}::ZERO; let f = unsafe {{ crate::sym::op({k}, &a, &b, &mut o) }}; (o, f != 0)',BU,f'a.{nm}_ct(b)'))
wrap(B+'overflowing.rs','long_mul','self, rhs: Self','(self, rhs)','(Self, bool)',(bin2,f'let mut o = {BU}::ZERO; let f = unsafe {{ crate::sym::op(2, &a, &b, &mut o) }}; (o, f != 0)',BU,'a.long_mul_ct(b)'))
wrap(B+'checked.rs','div_rem_unchecked','self, rhs: Self','(self, rhs)','(Self, Self)',(bin2,f'let mut o = [{BU}::ZERO; 2]; unsafe {{ crate::sym::op(3, &a, &b, &mut o) }}; (o[0], o[1])',BU,'a.div_rem_unchecked_ct(b)'))
wrap(B+'mod.rs','is_zero','&self','(*self,)','bool',(f'a: {BU}',f'let z = {BU}::ZERO; unsafe {{ crate::sym::op(5, &a, &z, core::ptr::null_mut::<u64>()) != 0 }}',BU,'a.is_zero_ct()'))
wrap(B+'mod.rs','is_one','&self','(*self,)','bool',(f'a: {BU}',f'let z = {BU}::ONE; unsafe {{ crate::sym::op(5, &a, &z, core::ptr::null_mut::<u64>()) != 0 }}',BU,'a.is_one_ct()'))
wrap(B+'mod.rs','leading_zeros','self','(self,)','ExpType',(f'a: {BU}',f'(N * core::mem::size_of::<$Digit>() * 8) as ExpType - unsafe {{ crate::sym::op(8, &a, &a, core::ptr::null_mut::<u64>()) }} as ExpType',BU,'a.leading_zeros_ct()'))
wrap(B+'mod.rs','unchecked_shl_internal','self, rhs: ExpType','(self, rhs)','$BUint<N>',(f'a: {BU}, k: ExpType',f'let mut o = {BU}::ZERO; unsafe {{ crate::sym::shift(6, &a, k, &mut o); }} o',BU,'a.unchecked_shl_internal_ct(k)'),True)
wrap(B+'mod.rs','unchecked_shr_internal','u: $BUint<N>, rhs: ExpType','(u, rhs)','$BUint<N>',(f'a: {BU}, k: ExpType',f'let mut o = {BU}::ZERO; unsafe {{ crate::sym::shift(7, &a, k, &mut o); }} o',BU,f'{BU}::unchecked_shr_internal_ct(a, k)'),True)
wrap(B+'const_trait_fillers.rs','eq','&self, other: &Self','(*self, *other)','bool',(bin2,'unsafe { crate::sym::op(5, &a, &b, core::ptr::null_mut::<u64>()) != 0 }',BU,f'{BU}::eq_ct(&a, &b)'))
wrap(B+'const_trait_fillers.rs','cmp','&self, other: &Self','(*self, *other)','Ordering',(bin2,'match unsafe { crate::sym::op(4, &a, &b, core::ptr::null_mut::<u64>()) } { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater }',BU,f'{BU}::cmp_ct(&a, &b)'))
s=open(B+'convert.rs').read()
a='''                    const UINT_BITS: usize = $uint::BITS as usize;
                    let mut out = Self::ZERO;'''
assert a in s
i=s.index(a); j=s.index('                    out\n',i)
s=s[:i]+'''                    let mut out = Self::ZERO;
                    unsafe { core::ptr::write_unaligned(&mut out as *mut Self as *mut $uint, int) };
'''+s[j:]
i=s.index('                    let mut out = 0;\n                    let mut i = 0;\n                    if $Digit::BITS'); j=s.index('                    Ok(out)\n',i)
s=s[:i]+'''                    let bits = <$int>::BITS as usize - (<$int>::MIN != 0) as usize;
                    if unsafe { crate::sym::shift(9, &u, bits as u32, core::ptr::null_mut()) } == 0 {
                        return Err(TryFromIntError(()));
                    }
                    let out = unsafe { core::ptr::read_unaligned(&u as *const $BUint<N> as *const $int) };
'''+s[j:]
open(B+'convert.rs','w').write(s)
sub(B+'fmt.rs','''                f.pad_integral(true, "", &self.to_str_radix(10))''','''                let mut x = *self;
                let mut buf = [0u8; 24];
                let by = unsafe { core::slice::from_raw_parts_mut(&mut x as *mut Self as *mut u8, core::mem::size_of::<Self>()) };
                if let Some(n) = symrt::fmt_placeholder(by, b'U', &mut buf) {
                    return f.write_str(unsafe { core::str::from_utf8_unchecked(&buf[..n]) });
                }
                f.pad_integral(true, "", &x.to_str_radix(10))''')
wrap(B+'radix.rs','from_str_radix','src: &str, radix: u32','(src, radix)','Result<Self, ParseIntError>',('src: &str, radix: u32',f'''let mut o = {BU}::ZERO;
                    let by = unsafe {{ core::slice::from_raw_parts_mut(&mut o as *mut {BU} as *mut u8, core::mem::size_of::<{BU}>()) }};
                    match symrt::parse_placeholder(src.as_bytes(), b'U', by) {{
                        Some(true) => return Ok(o),
                        Some(false) => return Err(ParseIntError {{ kind: IntErrorKind::PosOverflow }}),
                        None => {{}}
                    }}
                    {BU}::from_str_radix_ct(src, radix)''',BU,f'{BU}::from_str_radix_ct(src, radix)'))
s=open('Cargo.toml').read()
if 'symrt' not in s:
    s=s.replace('[dependencies.arbitrary]','[dependencies.symrt]\npath = "../../symrt"\n\n[dependencies.arbitrary]')
open('Cargo.toml','w').write(s)

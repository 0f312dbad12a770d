#!/usr/bin/env python3
"""Mechanical copies of two third-party crates for the Kani build (never used natively).

backtrace-0.3.69: one ambiguous `unreachable!()` call is path-qualified so the crate
  compiles against Kani's std (it is a transitive dependency of color-eyre only).
bytes-1.5.0: storage management is replaced by leaking storage (no reference counts, no
  vtable dispatch, no deallocation); contents, lengths, slicing, panics on short buffers
  and the Buf/BufMut readers and writers are the original code.  Trusted: this rewrite.
"""
import glob, os, re, shutil, sys

out = sys.argv[1]
reg = glob.glob('/root/.cargo/registry/src/*/')[0]

def copy(name, ver):
    d = os.path.join(out, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(os.path.join(reg, f'{name}-{ver}'), d)
    return d

def fn_body(s, header, body, after=0):
    """replace the brace-delimited body following `header`"""
    i = s.index(header, after)
    b = s.index('{', i + len(header) - 1 if header.endswith('{') else i)
    depth, j = 0, b
    while True:
        if s[j] == '{': depth += 1
        elif s[j] == '}':
            depth -= 1
            if depth == 0: break
        j += 1
    return s[:b] + '{ ' + body + ' }' + s[j+1:]

d = copy('backtrace', '0.3.69')
p = d + '/src/types.rs'
s = open(p).read(); s = s.replace('unreachable!()', 'core::unreachable!()'); open(p, 'w').write(s)

d = copy('bytes', '1.5.0')
p = d + '/src/bytes.rs'
s = open(p).read()
k = s.index('impl Drop for Bytes {')
s = fn_body(s, 'fn drop(&mut self)', '', k)
k = s.index('impl Clone for Bytes {')
s = fn_body(s, 'fn clone(&self) -> Bytes', 'Bytes { ptr: self.ptr, len: self.len, data: AtomicPtr::new(ptr::null_mut()), vtable: &STATIC_VTABLE }', k)
s = fn_body(s, 'fn from(vec: Vec<u8>) -> Bytes', 'let vec = mem::ManuallyDrop::new(vec); Bytes { ptr: vec.as_ptr(), len: vec.len(), data: AtomicPtr::new(ptr::null_mut()), vtable: &STATIC_VTABLE }')
s = fn_body(s, 'fn from(slice: Box<[u8]>) -> Bytes', 'Bytes::from(slice.into_vec())')
s = fn_body(s, 'fn from(bytes: Bytes) -> Vec<u8>', 'bytes.as_slice().to_vec()')
open(p, 'w').write(s)

p = d + '/src/bytes_mut.rs'
s = open(p).read()
s = fn_body(s, 'pub fn freeze(mut self) -> Bytes', 'let s: &\'static [u8] = unsafe { slice::from_raw_parts(self.ptr.as_ptr(), self.len) }; mem::forget(self); Bytes::from_static(s)')
s = fn_body(s, 'fn reserve_inner(&mut self, additional: usize)', '''
        let new_cap = self.len.checked_add(additional).expect("overflow");
        let mut v = ManuallyDrop::new(Vec::with_capacity(new_cap));
        v.extend_from_slice(self.as_slice());
        self.ptr = vptr(v.as_mut_ptr());
        self.len = v.len();
        self.cap = v.capacity();''')
s = fn_body(s, 'pub(crate) fn from_vec(mut vec: Vec<u8>) -> BytesMut', '''
        let ptr = vptr(vec.as_mut_ptr());
        let len = vec.len();
        let cap = vec.capacity();
        mem::forget(vec);
        BytesMut { ptr, len, cap, data: ptr::null_mut() }''')
s = fn_body(s, 'unsafe fn set_start(&mut self, start: usize)', '''
        debug_assert!(start <= self.cap, "internal: set_start out of bounds");
        self.ptr = vptr(self.ptr.as_ptr().add(start));
        if self.len >= start { self.len -= start; } else { self.len = 0; }
        self.cap -= start;''')
s = fn_body(s, 'unsafe fn set_end(&mut self, end: usize)', '''
        assert!(end <= self.cap, "set_end out of bounds");
        self.cap = end;
        self.len = cmp::min(self.len, end);''')
s = fn_body(s, 'fn try_unsplit(&mut self, other: BytesMut) -> Result<(), BytesMut>', 'Err(other)')
s = fn_body(s, 'unsafe fn shallow_clone(&mut self) -> BytesMut', 'BytesMut { ptr: self.ptr, len: self.len, cap: self.cap, data: ptr::null_mut() }')
k = s.index('impl Drop for BytesMut {')
s = fn_body(s, 'fn drop(&mut self)', '', k)
s = fn_body(s, 'fn from(mut bytes: BytesMut) -> Self', 'bytes.as_slice_mut().to_vec()')
open(p, 'w').write(s)
for f in ('bytes', 'backtrace'):
    for x in ('benches', 'tests', 'ci'):
        shutil.rmtree(os.path.join(out, f, x), ignore_errors=True)

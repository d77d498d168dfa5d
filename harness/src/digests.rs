//! Digests that can be observed, and digests that misbehave in a way a random oracle may.

use digest::generic_array::{typenum::U32, typenum::U64, GenericArray};
use digest::{BlockInput, FixedOutput, Reset, Update};
use std::cell::RefCell;

#[derive(Default)]
struct Rec {
    on: bool,
    inputs: Vec<Vec<u8>>,
    outputs: Vec<Vec<u8>>,
}

thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
    static SAME: RefCell<(Vec<u8>, u64)> = const { RefCell::new((Vec::new(), 0)) };
}

/// Inputs and outputs of all hash calls that `f` makes on this thread.
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>, Vec<Vec<u8>>) {
    REC.with(|r| *r.borrow_mut() = Rec { on: true, ..Default::default() });
    let t = f();
    let r = REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
    (t, r.inputs, r.outputs)
}

fn note(input: Vec<u8>, out: &[u8]) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.on {
            r.inputs.push(input);
            r.outputs.push(out.to_vec());
        }
    });
}

macro_rules! digest_wrapper {
    ($(#[$m:meta])* $name:ident, $len:ty, |$inp:ident, $raw:ident| $post:block) => {
        $(#[$m])*
        #[derive(Clone, Default)]
        pub struct $name {
            buf: Vec<u8>,
        }
        impl BlockInput for $name {
            type BlockSize = digest::generic_array::typenum::U128;
        }
        impl Update for $name {
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.buf.extend_from_slice(data.as_ref());
            }
        }
        impl FixedOutput for $name {
            type OutputSize = $len;
            fn finalize_into(self, out: &mut GenericArray<u8, $len>) {
                let $inp = self.buf;
                let mut $raw: [u8; 64] = {
                    use blake2::Digest;
                    blake2::Blake2b::digest(&$inp).into()
                };
                $post;
                let n = out.len();
                out.copy_from_slice(&$raw[..n]);
                note($inp, &out[..]);
            }
            fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, $len>) {
                let s = std::mem::take(self);
                s.finalize_into(out);
            }
        }
        impl Reset for $name {
            fn reset(&mut self) {
                self.buf.clear();
            }
        }
    };
}

/// A retry loop that hashes the same bytes again and again never ends: stop it.
fn same_input_guard(inp: &[u8]) {
    SAME.with(|s| {
        let mut s = s.borrow_mut();
        if s.0 == inp {
            s.1 += 1;
            if s.1 > 2000 {
                s.1 = 0;
                panic!("the same input is hashed endlessly");
            }
        } else {
            *s = (inp.to_vec(), 0);
        }
    });
}

digest_wrapper!(
    /// Blake2b, observable
    Rec64, U64, |inp, raw| {}
);
digest_wrapper!(
    /// Blake2b truncated to 32 bytes, observable
    Rec32, U32, |inp, raw| {}
);
digest_wrapper!(
    /// Two of three outputs are zero: an unusable round challenge, as a random oracle may give
    Zeros64, U64, |inp, raw| {
        same_input_guard(&inp);
        if raw[40] % 3 != 0 { raw = [0; 64]; }
    }
);
digest_wrapper!(
    /// Two of three outputs are all ones: not the encoding of a field element
    Ones64, U64, |inp, raw| {
        same_input_guard(&inp);
        if raw[40] % 3 != 0 { raw = [0xff; 64]; }
    }
);
digest_wrapper!(
    /// Zeros, ones and normal outputs
    Mixed64, U64, |inp, raw| {
        same_input_guard(&inp);
        match raw[40] % 4 { 0 => raw = [0; 64], 1 => raw = [0xff; 64], _ => {} }
    }
);

//! The twins of the witnesses in `rejected`: they have to compile, so that those
//! are rejected for the stated reason only.
#![allow(dead_code, unused)]
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};
/// allowed: next_shared
mod next_shared {
    use super::*;
    fn f(c: &mut Coupler, i: &[u16], o: &[u16]) { let _ = c.next(i, o); }
}
/// allowed: set_output_shared
mod set_output_shared {
    use super::*;
    fn f(c: &mut Coupler, a: &Address, v: ChannelValue) { let _ = c.set_output(a, v); }
}
/// allowed: reader_shared
mod reader_shared {
    use super::*;
    fn f(c: &mut Coupler) { let _ = c.reader(0); }
}
/// allowed: writer_shared
mod writer_shared {
    use super::*;
    fn f(c: &mut Coupler) { let _ = c.writer(0); }
}
/// allowed: processor_shared
mod processor_shared {
    use super::*;
    fn f(p: &mut MessageProcessor, i: &ProcessInput, o: &ProcessOutput) { let _ = p.next(i, o); }
}
/// allowed: processor_read_shared
mod processor_read_shared {
    use super::*;
    fn f(p: &mut MessageProcessor, b: &mut [u8]) { let _ = p.read(b); }
}
/// allowed: processor_write_shared
mod processor_write_shared {
    use super::*;
    fn f(p: &mut MessageProcessor, b: &[u8]) { let _ = p.write(b); }
}
/// allowed: two_threads
mod two_threads {
    use super::*;
    fn f(mut c: Coupler) {
        std::thread::scope(|s| {
            s.spawn(|| c.next(&[], &[]).is_ok());
        });
        std::thread::scope(|s| {
            s.spawn(|| c.next(&[], &[]).is_ok());
        });
    }
}
/// allowed: cycle_and_write
mod cycle_and_write {
    use super::*;
    fn f(mut c: Coupler, a: Address) {
        std::thread::scope(|s| {
            s.spawn(|| c.set_output(&a, ChannelValue::None).is_ok());
        });
        let _ = c.next(&[], &[]);
    }
}
/// allowed: reader_kept
mod reader_kept {
    use super::*;
    fn f(c: &mut Coupler) { let r = c.reader(0); drop(r); let _ = c.next(&[], &[]); }
}
/// allowed: writer_kept
mod writer_kept {
    use super::*;
    fn f(c: &mut Coupler) { let r = c.writer(0); drop(r); let _ = c.next(&[], &[]); }
}
/// allowed: inputs_kept
mod inputs_kept {
    use super::*;
    fn f(c: &mut Coupler) { let v = c.inputs().clone(); let _ = c.next(&[], &[]); let _ = v.len(); }
}
/// allowed: outputs_kept
mod outputs_kept {
    use super::*;
    fn f(c: &mut Coupler) { let v = c.outputs().clone(); let _ = c.next(&[], &[]); let _ = v.len(); }
}

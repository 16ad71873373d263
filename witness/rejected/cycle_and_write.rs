//! rejected with E0499: no thread can write outputs during the cycle of another
#![allow(dead_code, unused)]
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};
fn f(mut c: Coupler, a: Address) {
    std::thread::scope(|s| {
        s.spawn(|| c.next(&[], &[]).is_ok());
        s.spawn(|| c.set_output(&a, ChannelValue::None).is_ok());
    });
}

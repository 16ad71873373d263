//! rejected with E0502: the values of a cycle cannot be observed while the next one changes them
#![allow(dead_code, unused)]
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};
fn f(c: &mut Coupler) { let v = c.outputs(); let _ = c.next(&[], &[]); let _ = v.len(); }

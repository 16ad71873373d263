//! rejected with E0499: a writer cannot be kept during a cycle
#![allow(dead_code, unused)]
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};
fn f(c: &mut Coupler) { let r = c.writer(0); let _ = c.next(&[], &[]); drop(r); }

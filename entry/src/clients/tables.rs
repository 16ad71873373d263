//! The documented code tables of the parameter registers, written down
//! independently of the library.
use super::util::*;

pub fn flag(c: u16) -> Option<bool> {
    match c {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    }
}
macro_rules! table {
    ($f:ident, $t:ty, $($c:expr => $v:ident),*) => {
        pub fn $f(c: u16) -> Option<$t> {
            type T = $t;
            match c {
                $($c => Some(T::$v),)*
                _ => None,
            }
        }
    };
}
table! { format, DataFormat, 0 => S5, 1 => S7 }
table! { ui_range, AnalogUIRange, 0 => mA0To20, 1 => mA4To20, 2 => V0To10, 3 => VMinus10To10, 4 => V0To5,
5 => VMinus5To5, 6 => V1To5, 7 => V2To10, 8 => Disabled }
table! { i_range, AnalogIRange, 0 => mA0To20, 1 => mA4To20, 2 => Disabled }
table! { rtd_range, RtdRange, 0 => PT100, 1 => PT200, 2 => PT500, 3 => PT1000, 4 => NI100, 5 => NI120, 6 => NI200,
7 => NI500, 8 => NI1000, 9 => Cu10, 10 => R40, 11 => R80, 12 => R150, 13 => R300, 14 => R500, 15 => R1000,
16 => R2000, 17 => R4000, 18 => Disabled }
table! { unit, TemperatureUnit, 0 => Celsius, 1 => Fahrenheit, 2 => Kelvin }
table! { connection, ConnectionType, 0 => TwoWire, 1 => ThreeWire, 2 => FourWire }
table! { conversion, ConversionTime, 0 => ms240, 1 => ms130, 2 => ms80, 3 => ms55, 4 => ms43, 5 => ms36 }
table! { filter, InputFilter, 0 => us5, 1 => us11, 2 => us21, 3 => us43, 4 => us83, 5 => us167, 6 => us333, 7 => us667,
8 => ms1, 9 => ms3, 10 => ms5, 11 => ms11, 12 => ms22, 13 => ms43, 14 => ms91, 15 => ms167, 16 => ms333 }
table! { delay, InputDelay, 0 => no, 1 => us300, 2 => ms3, 3 => ms10, 4 => ms20, 5 => ms40 }
table! { frequency, FrequencySuppression, 0 => Disabled, 1 => Hz50, 2 => Hz60, 3 => Average16 }
table! { tc_range, ur20_4ai_tc_diag::MeasurementRange, 0 => TC_Type_J, 1 => TC_Type_K, 2 => TC_Type_N, 3 => TC_Type_R,
4 => TC_Type_S, 5 => TC_Type_T, 6 => TC_Type_B, 7 => TC_Type_C, 8 => TC_Type_E, 9 => TC_Type_L, 10 => TC_Type_U,
11 => uVPlusMinus15625, 12 => uVPlusMinus31250, 13 => uVPlusMinus62500, 14 => mVPlusMinus125, 15 => mVPlusMinus250,
16 => mVPlusMinus500, 17 => VPlusMinus1, 18 => VPlusMinus2, 19 => Disabled }
table! { junction, ur20_4ai_tc_diag::ColdJunctionCompensation, 0 => Internal, 1 => ExternalChannel0,
2 => ExternalChannel1, 3 => ExternalChannel2, 4 => ExternalChannel3 }
table! { mode, ur20_1com_232_485_422::OperatingMode, 0 => Disabled, 1 => RS232, 2 => RS485, 3 => RS422 }
table! { data_bits, ur20_1com_232_485_422::DataBits, 0 => SevenBits, 1 => EightBits }
table! { baud, ur20_1com_232_485_422::BaudRate, 0 => Baud_300, 1 => Baud_600, 2 => Baud_1200, 3 => Baud_2400,
4 => Baud_4800, 5 => Baud_9600, 6 => Baud_14400, 7 => Baud_19200, 8 => Baud_28800, 9 => Baud_38400,
10 => Baud_57600, 11 => Baud_115200 }
table! { stop_bit, ur20_1com_232_485_422::StopBit, 0 => OneBit, 1 => TwoBits }
table! { parity, ur20_1com_232_485_422::Parity, 0 => None, 1 => Even, 2 => Odd }
table! { flow, ur20_1com_232_485_422::FlowControl, 0 => None, 1 => CTS_RTS, 2 => XON_XOFF }
table! { frame_len, ur20_1com_232_485_422::ProcessDataLength, 0 => EightBytes, 1 => SixteenBytes }

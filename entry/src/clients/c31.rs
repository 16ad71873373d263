//! C31: parameter enumerations and their codes, in both directions.
use super::tables::*;
use super::util::*;
use crate::rt::*;
use num_traits::{FromPrimitive, ToPrimitive};

/// every enumeration is made from exactly its documented codes and converts back to them
macro_rules! codes {
    ($($n:ident: $t:ty, $table:ident;)*) => {
        $(pub fn $n() {
                let c: u16 = any("code");
                let x = <$t>::from_u16(c);
                require(x == $table(c), "made from exactly the documented codes");
                if let Some(x) = x {
                    require(x.to_u16() == Some(c), "converts back to its code");
                    require(x.to_i64() == Some(c as i64), "converts back to its code");
                    require(x.to_u64() == Some(c as u64), "converts back to its code");
                }
                let w: u64 = any("wide code");
                if w >= 0x10000 {
                    require(<$t>::from_u64(w).is_none(), "no code above 16 bits");
                }
                let s: i64 = any("signed code");
                if s < 0 {
                    require(<$t>::from_i64(s).is_none(), "no negative code");
                }
        })*
    };
}
codes! {
    data_format: DataFormat, format;
    voltage_range: AnalogUIRange, ui_range;
    current_range: AnalogIRange, i_range;
    resistance_range: RtdRange, rtd_range;
    temperature_unit: TemperatureUnit, unit;
    connection_type: ConnectionType, connection;
    conversion_time: ConversionTime, conversion;
    input_filter: InputFilter, filter;
    input_delay: InputDelay, delay;
    frequency_suppression: FrequencySuppression, frequency;
    thermocouple: ur20_4ai_tc_diag::MeasurementRange, tc_range;
    cold_junction: ur20_4ai_tc_diag::ColdJunctionCompensation, junction;
    frame_length: ur20_1com_232_485_422::ProcessDataLength, frame_len;
    operating_mode: ur20_1com_232_485_422::OperatingMode, mode;
    baud_rate: ur20_1com_232_485_422::BaudRate, baud;
    stop_bits: ur20_1com_232_485_422::StopBit, stop_bit;
    parity_bit: ur20_1com_232_485_422::Parity, parity;
    flow_control: ur20_1com_232_485_422::FlowControl, flow;
    data_bit_count: ur20_1com_232_485_422::DataBits, data_bits;
}

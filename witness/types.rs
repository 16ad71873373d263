//! C22: obligations on the type checker, one per line.  Each line compiles
//! exactly if the named type has the named property.
#![allow(dead_code, unused)]
use ur20::*;
fn send<T: Send + 'static>() {}
fn sync<T: Sync + 'static>() {}
fn module<T: ur20_fbc_mod_tcp::ProcessModbusTcpData + ?Sized>(m: Box<T>) where Box<T>: Send {}
const _: fn() = || send::<ur20_16do_p::Mod>();
const _: fn() = || send::<ur20_1com_232_485_422::Mod>();
const _: fn() = || send::<ur20_2fcnt_100::Mod>();
const _: fn() = || send::<ur20_4ai_rtd_diag::Mod>();
const _: fn() = || send::<ur20_4ai_tc_diag::Mod>();
const _: fn() = || send::<ur20_4ai_ui_16_diag::Mod>();
const _: fn() = || send::<ur20_4ao_ui_16::Mod>();
const _: fn() = || send::<ur20_4ao_ui_16_diag::Mod>();
const _: fn() = || send::<ur20_4ro_co_255::Mod>();
const _: fn() = || send::<ur20_8ai_i_16_diag_hd::Mod>();
const _: fn() = || send::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>();
const _: fn() = || send::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>();
const _: fn() = || send::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>();
const _: fn() = || send::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>();
const _: fn() = || send::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>();
const _: fn() = || send::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>();
const _: fn() = || send::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>();
const _: fn() = || send::<ur20_pf_o_1di_sil::Mod>();
const _: fn() = || send::<ur20_1com_232_485_422::MessageProcessor>();
const _: fn() = || send::<ur20_fbc_mod_tcp::Coupler>();
const _: fn() = || send::<Box<dyn ur20_fbc_mod_tcp::ProcessModbusTcpData>>();
const _: fn() = || send::<ChannelValue>();
const _: fn() = || sync::<ChannelValue>();
const _: fn() = || send::<Address>();
const _: fn() = || sync::<Address>();
const _: fn() = || send::<ModuleCategory>();
const _: fn() = || sync::<ModuleCategory>();
const _: fn() = || send::<ModuleType>();
const _: fn() = || sync::<ModuleType>();
const _: fn() = || send::<DataFormat>();
const _: fn() = || sync::<DataFormat>();
const _: fn() = || send::<AnalogUIRange>();
const _: fn() = || sync::<AnalogUIRange>();
const _: fn() = || send::<AnalogIRange>();
const _: fn() = || sync::<AnalogIRange>();
const _: fn() = || send::<RtdRange>();
const _: fn() = || sync::<RtdRange>();
const _: fn() = || send::<TemperatureUnit>();
const _: fn() = || sync::<TemperatureUnit>();
const _: fn() = || send::<ConnectionType>();
const _: fn() = || sync::<ConnectionType>();
const _: fn() = || send::<ConversionTime>();
const _: fn() = || sync::<ConversionTime>();
const _: fn() = || send::<InputFilter>();
const _: fn() = || sync::<InputFilter>();
const _: fn() = || send::<InputDelay>();
const _: fn() = || sync::<InputDelay>();
const _: fn() = || send::<FrequencySuppression>();
const _: fn() = || sync::<FrequencySuppression>();
const _: fn() = || send::<Error>();
const _: fn() = || sync::<Error>();
const _: fn() = || send::<ur20_fbc_mod_tcp::ModuleOffset>();
const _: fn() = || sync::<ur20_fbc_mod_tcp::ModuleOffset>();
const _: fn() = || send::<ur20_fbc_mod_tcp::CouplerConfig>();
const _: fn() = || sync::<ur20_fbc_mod_tcp::CouplerConfig>();
const _: fn() = || send::<ur20_2fcnt_100::ProcessInput>();
const _: fn() = || sync::<ur20_2fcnt_100::ProcessInput>();
const _: fn() = || send::<ur20_2fcnt_100::ProcessOutput>();
const _: fn() = || sync::<ur20_2fcnt_100::ProcessOutput>();
const _: fn() = || send::<ur20_2fcnt_100::Command>();
const _: fn() = || sync::<ur20_2fcnt_100::Command>();
const _: fn() = || send::<ur20_2fcnt_100::ChannelParameters>();
const _: fn() = || sync::<ur20_2fcnt_100::ChannelParameters>();
const _: fn() = || send::<ur20_4ai_tc_diag::ModuleParameters>();
const _: fn() = || sync::<ur20_4ai_tc_diag::ModuleParameters>();
const _: fn() = || send::<ur20_4ai_tc_diag::ChannelParameters>();
const _: fn() = || sync::<ur20_4ai_tc_diag::ChannelParameters>();
const _: fn() = || send::<ur20_4ai_tc_diag::MeasurementRange>();
const _: fn() = || sync::<ur20_4ai_tc_diag::MeasurementRange>();
const _: fn() = || send::<ur20_4ai_tc_diag::ColdJunctionCompensation>();
const _: fn() = || sync::<ur20_4ai_tc_diag::ColdJunctionCompensation>();
const _: fn() = || send::<ur20_4ai_rtd_diag::ModuleParameters>();
const _: fn() = || sync::<ur20_4ai_rtd_diag::ModuleParameters>();
const _: fn() = || send::<ur20_4ai_rtd_diag::ChannelParameters>();
const _: fn() = || sync::<ur20_4ai_rtd_diag::ChannelParameters>();
const _: fn() = || send::<ur20_pf_o_1di_sil::ProcessInput>();
const _: fn() = || sync::<ur20_pf_o_1di_sil::ProcessInput>();
const _: fn() = || send::<ur20_ai_ui_generic::ModuleParameters>();
const _: fn() = || sync::<ur20_ai_ui_generic::ModuleParameters>();
const _: fn() = || send::<ur20_ai_ui_generic::ChannelParameters>();
const _: fn() = || sync::<ur20_ai_ui_generic::ChannelParameters>();
const _: fn() = || send::<ur20_4ai_ui_16_diag::ModuleParameters>();
const _: fn() = || sync::<ur20_4ai_ui_16_diag::ModuleParameters>();
const _: fn() = || send::<ur20_4ai_ui_16_diag::ChannelParameters>();
const _: fn() = || sync::<ur20_4ai_ui_16_diag::ChannelParameters>();
const _: fn() = || send::<ur20_4ro_co_255::ChannelParameters>();
const _: fn() = || sync::<ur20_4ro_co_255::ChannelParameters>();
const _: fn() = || send::<ur20_8ai_i_16_diag_hd::ModuleParameters>();
const _: fn() = || sync::<ur20_8ai_i_16_diag_hd::ModuleParameters>();
const _: fn() = || send::<ur20_8ai_i_16_diag_hd::ChannelParameters>();
const _: fn() = || sync::<ur20_8ai_i_16_diag_hd::ChannelParameters>();
const _: fn() = || send::<ur20_do_generic::ChannelParameters>();
const _: fn() = || sync::<ur20_do_generic::ChannelParameters>();
const _: fn() = || send::<ur20_di_generic::ChannelParameters>();
const _: fn() = || sync::<ur20_di_generic::ChannelParameters>();
const _: fn() = || send::<ur20_4ao_ui_16::ChannelParameters>();
const _: fn() = || sync::<ur20_4ao_ui_16::ChannelParameters>();
const _: fn() = || send::<ur20_4ao_ui_16_diag::ChannelParameters>();
const _: fn() = || sync::<ur20_4ao_ui_16_diag::ChannelParameters>();
const _: fn() = || send::<ur20_1com_232_485_422::ProcessInput>();
const _: fn() = || sync::<ur20_1com_232_485_422::ProcessInput>();
const _: fn() = || send::<ur20_1com_232_485_422::ProcessOutput>();
const _: fn() = || sync::<ur20_1com_232_485_422::ProcessOutput>();
const _: fn() = || send::<ur20_1com_232_485_422::ModuleParameters>();
const _: fn() = || sync::<ur20_1com_232_485_422::ModuleParameters>();
const _: fn() = || send::<ur20_1com_232_485_422::ChannelParameters>();
const _: fn() = || sync::<ur20_1com_232_485_422::ChannelParameters>();
const _: fn() = || send::<ur20_1com_232_485_422::OperatingMode>();
const _: fn() = || sync::<ur20_1com_232_485_422::OperatingMode>();
const _: fn() = || send::<ur20_1com_232_485_422::DataBits>();
const _: fn() = || sync::<ur20_1com_232_485_422::DataBits>();
const _: fn() = || send::<ur20_1com_232_485_422::BaudRate>();
const _: fn() = || sync::<ur20_1com_232_485_422::BaudRate>();
const _: fn() = || send::<ur20_1com_232_485_422::StopBit>();
const _: fn() = || sync::<ur20_1com_232_485_422::StopBit>();
const _: fn() = || send::<ur20_1com_232_485_422::Parity>();
const _: fn() = || sync::<ur20_1com_232_485_422::Parity>();
const _: fn() = || send::<ur20_1com_232_485_422::FlowControl>();
const _: fn() = || sync::<ur20_1com_232_485_422::FlowControl>();
const _: fn() = || send::<ur20_1com_232_485_422::ProcessDataLength>();
const _: fn() = || sync::<ur20_1com_232_485_422::ProcessDataLength>();
fn every_module<T: ur20_fbc_mod_tcp::ProcessModbusTcpData + 'static>() { send::<T>(); }
fn list_in_another_thread(v: Vec<Vec<ChannelValue>>) { std::thread::spawn(move || drop(v)); }
fn coupler_in_another_thread(c: ur20_fbc_mod_tcp::Coupler) { std::thread::spawn(move || drop(c)); }
fn result_in_another_thread(r: std::result::Result<Vec<u16>, Error>) { std::thread::spawn(move || drop(r)); }

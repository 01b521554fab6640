// Projection of decoded values to flat, type-stable events.
use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::application_layer::vib::{ValueInfoBlock, ValueType};
use libmbus::parse::link_layer::{Control, Packet};
use libmbus::parse::transport_layer::control_info::MBusMessage;
use libmbus::parse::transport_layer::header::{LongHeader, MeterStatus, SecurityMode, TPLHeader};
use libmbus::parse::types::date::*;
use libmbus::parse::types::DataType;

pub struct Ev {
	pub e: &'static str,
	pub s: String,
	pub n: Vec<i64>,
}

pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
				let mut b = [0u16; 2];
				for u in c.encode_utf16(&mut b) {
					o.push_str(&format!("\\u{:04x}", u));
				}
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub fn jints(s: &mut String, it: impl Iterator<Item = i64>) {
	s.push('[');
	for (k, v) in it.enumerate() {
		if k > 0 {
			s.push(',');
		}
		s.push_str(&v.to_string());
	}
	s.push(']');
}

impl Ev {
	pub fn json(&self, s: &mut String) {
		s.push_str(&format!("{{\"e\":\"{}\",\"s\":{},\"n\":", self.e, jstr(&self.s)));
		jints(s, self.n.iter().copied());
		s.push('}');
	}
}

pub type Evs = Vec<Ev>;

pub fn ev(e: &'static str, s: impl Into<String>, n: Vec<i64>) -> Ev {
	Ev { e, s: s.into(), n }
}

fn bytes(v: &[u8]) -> Vec<i64> {
	v.iter().map(|b| *b as i64).collect()
}
fn chars(v: &str) -> Vec<i64> {
	v.chars().map(|c| c as i64).collect()
}
pub fn limbs(v: u64, n: usize) -> Vec<i64> {
	(0..n).map(|k| ((v >> (16 * k)) & 0xFFFF) as i64).collect()
}
fn b(v: bool) -> i64 {
	v as i64
}

pub fn packet(p: &Packet, o: &mut Evs) {
	match p {
		Packet::Ack => o.push(ev("Frame", "Ack", vec![])),
		Packet::Short { control: c, address } => {
			o.push(ev("Frame", "Short", vec![]));
			control(c, o);
			o.push(ev("Address", "", vec![*address as i64]));
		}
		Packet::Long { control: c, address, message: m } => {
			o.push(ev("Frame", "Long", vec![]));
			control(c, o);
			o.push(ev("Address", "", vec![*address as i64]));
			message(m, o);
		}
		#[allow(unreachable_patterns)]
		_ => o.push(ev("Frame", "?", vec![])),
	}
}

fn control(c: &Control, o: &mut Evs) {
	match c {
		Control::Primary { frame_count_bit, message } => {
			o.push(ev("Control", format!("Primary {message:?}"), vec![b(*frame_count_bit)]))
		}
		Control::Secondary { access_demand, data_flow_control, message } => o.push(ev(
			"Control",
			format!("Secondary {message:?} {data_flow_control:?}"),
			vec![b(*access_demand)],
		)),
		#[allow(unreachable_patterns)]
		_ => o.push(ev("Control", "?", vec![])),
	}
}

pub fn message(m: &MBusMessage, o: &mut Evs) {
	use MBusMessage::*;
	let pay = |o: &mut Evs, d: &[u8]| o.push(ev("Pay", "", bytes(d)));
	let msg = |o: &mut Evs, s: &str, n: Vec<i64>| o.push(ev("Msg", s, n));
	match m {
		ApplicationReset(h) => {
			msg(o, "ApplicationReset", vec![]);
			header(h, o);
		}
		ApplicationSelect(h, a) => {
			msg(o, "ApplicationSelect", vec![]);
			header(h, o);
			application(a, o);
		}
		SelectedApplicationRequest(h) => {
			msg(o, "SelectedApplicationRequest", vec![]);
			header(h, o);
		}
		SelectedApplicationResponse(h, a) => {
			msg(o, "SelectedApplicationResponse", vec![]);
			header(h, o);
			application(a, o);
		}
		SelectionOfDevice(d) => {
			msg(o, "SelectionOfDevice", vec![]);
			pay(o, d);
		}
		SetBaudRate(r) => msg(o, &format!("SetBaudRate {r:?}"), vec![]),
		SynchroniseAction => msg(o, "SynchroniseAction", vec![]),
		TimeAdjustmentToDevice(h, d) => {
			msg(o, "TimeAdjustmentToDevice", vec![]);
			header(h, o);
			pay(o, d);
		}
		TimeSyncToDevice(h, d) => {
			msg(o, "TimeSyncToDevice", vec![]);
			header(h, o);
			pay(o, d);
		}
		AlarmFromDevice(h, d) => {
			msg(o, "AlarmFromDevice", vec![]);
			header(h, o);
			pay(o, d);
		}
		ApplicationErrorFromDevice(h, e) => {
			msg(o, "ApplicationErrorFromDevice", vec![]);
			header(h, o);
			app_error(e, o);
		}
		CommandToDevice(h, d) => {
			msg(o, "CommandToDevice", vec![]);
			header(h, o);
			pay(o, d);
		}
		ResponseFromDevice(h, f) => {
			msg(o, "ResponseFromDevice", vec![]);
			header(h, o);
			frame(f, o);
		}
		AuthenticationAndFrgamentation(d) => {
			msg(o, "AuthenticationAndFrgamentation", vec![]);
			pay(o, d);
		}
		Dlms(c, h, d) => {
			msg(o, "Dlms", vec![*c as i64]);
			header(h, o);
			pay(o, d);
		}
		ImageTransfer(c, h, d) => {
			msg(o, "ImageTransfer", vec![*c as i64]);
			header(h, o);
			pay(o, d);
		}
		ManufacturerSpecific(c, d) => {
			msg(o, "ManufacturerSpecific", vec![*c as i64]);
			pay(o, d);
		}
		SecurityTransfer(c, h, d) => {
			msg(o, "SecurityTransfer", vec![*c as i64]);
			header(h, o);
			pay(o, d);
		}
		SpecificUsage(c, h, d) => {
			msg(o, "SpecificUsage", vec![*c as i64]);
			header(h, o);
			pay(o, d);
		}
		Wireless(c, h) => {
			msg(o, "Wireless", vec![*c as i64]);
			header(h, o);
		}
		#[allow(unreachable_patterns)]
		_ => msg(o, "?", vec![]),
	}
}

fn status(s: &MeterStatus, o: &mut Evs) {
	o.push(ev(
		"Status",
		format!("{:?}", s.application),
		vec![
			b(s.manufacturer_2),
			b(s.manufacturer_1),
			b(s.manufacturer_0),
			b(s.temporary_error),
			b(s.permanent_error),
			b(s.power_low),
		],
	));
}

fn config(c: &SecurityMode, o: &mut Evs) {
	match c {
		SecurityMode::None => o.push(ev("Cfg", "None", vec![])),
		SecurityMode::Reserved(raw) => o.push(ev("Cfg", "Reserved", vec![*raw as i64])),
		#[allow(unreachable_patterns)]
		_ => o.push(ev("Cfg", "?", vec![])),
	}
}

pub fn header(h: &TPLHeader, o: &mut Evs) {
	match h {
		TPLHeader::None => o.push(ev("Hdr", "None", vec![])),
		TPLHeader::Short(s) => {
			o.push(ev("Hdr", "Short", vec![]));
			o.push(ev("Acc", "", vec![s.access_number as i64]));
			status(&s.status, o);
			config(&s.configuration_field, o);
		}
		TPLHeader::Long(l) => {
			o.push(ev("Hdr", "Long", vec![]));
			long_header(l, o);
		}
		#[allow(unreachable_patterns)]
		_ => o.push(ev("Hdr", "?", vec![])),
	}
}

fn long_header(l: &LongHeader, o: &mut Evs) {
	o.push(ev("Id", "", limbs(l.identifier as u64, 2)));
	o.push(ev("Man", l.manufacturer.clone(), vec![]));
	o.push(ev("Name", l.device_name.unwrap_or("-"), vec![]));
	o.push(ev("Ver", "", vec![l.version as i64]));
	o.push(ev("Type", format!("{:?}", l.device_type), vec![]));
	o.push(ev("Acc", "", vec![l.access_number as i64]));
	status(&l.status, o);
	config(&l.configuration_field, o);
}

// The two fields of ApplicationMessage are private: read them off its Debug
// form by position, without relying on their names.
pub fn application(a: &ApplicationMessage, o: &mut Evs) {
	let d = format!("{a:?}");
	let inner = d
		.split_once('{')
		.and_then(|(_, r)| r.rsplit_once('}'))
		.map(|(l, _)| l.trim())
		.unwrap_or("");
	let mut app = String::from("?");
	let mut block: u64 = 0;
	for part in inner.split(", ") {
		if let Some((_, v)) = part.split_once(": ") {
			if let Ok(n) = v.trim().parse::<u64>() {
				block = n;
			} else {
				app = v.trim().to_owned();
			}
		}
	}
	o.push(ev("App", app, limbs(block, 4)));
}

pub fn app_error(e: &ApplicationErrorMessage, o: &mut Evs) {
	use ApplicationErrorMessage as E;
	match e {
		E::DynamicError(r) => {
			o.push(ev("AErr", "DynamicError", vec![]));
			record(r, o);
		}
		E::ManufacturerSpecific(c, d) => {
			let mut n = vec![*c as i64];
			n.extend(bytes(d));
			o.push(ev("AErr", "ManufacturerSpecific", n));
		}
		other => o.push(ev("AErr", format!("{other:?}"), vec![])),
	}
}

pub fn frame(f: &Frame, o: &mut Evs) {
	for r in &f.records {
		record(r, o);
	}
	o.push(ev("More", "", vec![b(f.more_data_follows)]));
	o.push(ev("Mfr", "", bytes(&f.manufacturer_specific)));
}

pub fn record(r: &Record, o: &mut Evs) {
	o.push(ev("Rec", "", vec![]));
	dib(&r.dib, o);
	vib(&r.vib, o);
	data(&r.data, o);
}

pub fn dib(d: &DataInfoBlock, o: &mut Evs) {
	o.push(ev("Fn", format!("{:?}", d.function), vec![]));
	o.push(ev("Raw", format!("{:?}", d.raw_type), vec![]));
	o.push(ev("Sto", "", limbs(d.storage, 4)));
	o.push(ev("Tar", "", limbs(d.tariff as u64, 2)));
	o.push(ev("Sub", "", vec![d.device as i64]));
	o.push(ev("Obis", "", vec![b(d.is_obis)]));
}

pub fn vib(v: &ValueInfoBlock, o: &mut Evs) {
	match &v.value_type {
		ValueType::PlainText(t) => o.push(ev("Vif", "PlainText", chars(t))),
		other => o.push(ev("Vif", format!("{other:?}"), vec![])),
	}
	match &v.extra_vifes {
		None => o.push(ev("Vifes", "none", vec![])),
		Some(x) => o.push(ev("Vifes", "some", bytes(x))),
	}
}

pub fn type_f(d: &TypeFDateTime) -> Vec<i64> {
	vec![
		d.minute as i64,
		d.hour as i64,
		d.day as i64,
		d.month as i64,
		d.year as i64,
		d.hundred_year as i64,
		b(d.in_dst),
	]
}
pub fn type_g(d: &TypeGDate) -> Vec<i64> {
	vec![d.day as i64, d.month as i64, d.year as i64]
}
pub fn type_i(d: &TypeIDateTime) -> Vec<i64> {
	vec![
		d.second as i64,
		d.minute as i64,
		d.hour as i64,
		d.day as i64,
		d.month as i64,
		d.year as i64,
		d.day_of_week as i64,
		d.week as i64,
		b(d.in_dst),
		b(d.leap_year),
		d.dst_offset as i64,
	]
}
pub fn type_j(d: &TypeJTime) -> Vec<i64> {
	vec![d.second as i64, d.minute as i64, d.hour as i64]
}
pub fn type_k(d: &TypeKDST) -> Vec<i64> {
	vec![
		d.starts_hour as i64,
		d.starts_day as i64,
		d.starts_month as i64,
		d.ends_day as i64,
		d.ends_month as i64,
		b(d.enable),
		d.dst_deviation as i64,
		d.local_deviation as i64,
	]
}
pub fn real(v: f32) -> Vec<i64> {
	bytes(&v.to_bits().to_le_bytes())
}

pub fn data(d: &DataType, o: &mut Evs) {
	let (s, n) = match d {
		DataType::Unsigned(v) => ("Unsigned", bytes(&v.to_le_bytes())),
		DataType::Signed(v) => ("Signed", bytes(&v.to_le_bytes())),
		DataType::Bool(v) => ("Bool", vec![b(*v)]),
		DataType::Real(v) => ("Real", real(*v)),
		DataType::DateTimeF(v) => ("DateTimeF", type_f(v)),
		DataType::DateTimeI(v) => ("DateTimeI", type_i(v)),
		DataType::Date(v) => ("Date", type_g(v)),
		DataType::Time(v) => ("Time", type_j(v)),
		DataType::DST(v) => ("DST", type_k(v)),
		DataType::String(v) => ("String", chars(v)),
		DataType::ErrorValue(v) => ("ErrorValue", chars(v)),
		DataType::Invalid(v) => ("Invalid", bytes(v)),
		DataType::VariableLengthNumber(v) => ("VariableLengthNumber", bytes(v)),
		DataType::ManufacturerSpecific(v) => ("ManufacturerSpecific", bytes(v)),
		DataType::None => ("None", vec![]),
		#[allow(unreachable_patterns)]
		_ => ("?", vec![]),
	};
	o.push(ev("Data", s, n));
}

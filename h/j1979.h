#pragma once
// What an OBD (SAE J1979) message says.
#include "h.h"
inline std::string m_text(const Bytes &m) {
	if (m.empty()) return "J1979 empty message";
	std::string o = m[0] & 0x40 ? "J1979 response " : "J1979 request ";
	auto d = [&](size_t from) { std::string s; for (size_t i = from; i < m.size(); i++) s += fmt("0x%02X ", m[i]); return s; };
	auto need = [&](size_t n) { return m.size() >= n; };
	auto dtcs = [&]() { std::string s = "DTCs: "; for (size_t i = 1; i + 1 < m.size() && i < 6; i += 2) if (m[i] | m[i + 1]) s += fmt("%c%02X%02X  ", "PCBU"[m[i] >> 6], m[i] & 0x3f, m[i + 1]); return s; };
	std::string unk = o + fmt("UnknownType 0x%02X: Data Dump: ", m[0]) + d(0);
	switch (m[0]) {
	case 0x01: return need(2) ? o + fmt("Mode 1 PID 0x%02X", m[1]) : unk;
	case 0x41: return need(2) ? o + fmt("Mode 1 Data: PID 0x%02X ", m[1]) + d(2) : unk;
	case 0x02: return need(3) ? o + fmt("Mode 2 PID 0x%02X Frame 0x%02X", m[1], m[2]) : unk;
	case 0x42: return need(3) ? o + fmt("Mode 2 FreezeFrame Data: PID 0x%02X Frame 0x%02X ", m[1], m[2]) + d(3) : unk;
	case 0x03: return o + "Mode 3 (Powertrain DTCs)";
	case 0x07: return o + "Request Non-Continuous Monitor System Test Results";
	case 0x43: return o + dtcs();
	case 0x47: return o + "Non-Continuous Monitor System " + dtcs();
	case 0x04: return o + "Clear DTCs";
	case 0x44: return o + "DTCs cleared";
	case 0x05: return need(3) ? o + fmt("Oxygen Sensor Test ID 0x%02X Sensor 0x%02X", m[1], m[2]) : unk;
	case 0x45: return need(3) ? o + fmt("Oxygen Sensor TID 0x%02X Sensor 0x%02X ", m[1], m[2]) + d(3) : unk;
	case 0x06: return need(2) ? o + fmt("Onboard monitoring test request TID 0x%02X", m[1]) : unk;
	case 0x46: return need(2) ? o + fmt("Onboard monitoring test result TID 0x%02X ", m[1]) + d(2) : unk;
	case 0x08: return need(2) ? o + fmt("Request control of onboard system TID 0x%02X", m[1]) : unk;
	case 0x48: return need(2) ? o + fmt("Control of onboard system response TID 0x%02X ", m[1]) + d(2) : unk;
	case 0x09: return need(2) ? o + fmt("Request vehicle information infotype 0x%02X", m[1]) : unk;
	case 0x49: return need(2) ? o + fmt("Vehicle information infotype 0x%02X ", m[1]) + d(2) : unk;
	}
	return unk;
}

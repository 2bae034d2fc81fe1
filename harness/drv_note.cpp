// Notations: texts (T), bytes (B), identifiers (G), damaged identifiers (D), times (C).
#include "drv.h"
#include "Common.h"
#include "Base64.h"
#include "BinaryGuid.h"
#include "cfapi/V8Time.h"
#include "SystemClasses/String.hpp"
#include "SystemClasses/System.SysUtils.hpp"
#include "SystemClasses/TMemoryStream.hpp"
#include <ctime>
#include <cstring>

using namespace System;
typedef std::vector<uint8_t> V;
static V vec(const std::string &s) { return V(s.begin(), s.end()); }
static std::string body(TStream &s)
{
	std::string r(s.GetSize(), 0);
	s.Seek(0, soFromBeginning);
	if (!r.empty()) s.Read(&r[0], r.size());
	return r;
}
static std::string marked(const V &v)
{
	TEncoding *e = nullptr;
	int n = TEncoding::GetBufferEncoding(v, e);
	return std::string(e == TEncoding::UTF8 ? "utf8" : e == TEncoding::Unicode ? "utf16" : "none") + "/" + std::to_string(n);
}
static V with_mark(TEncoding *e, const std::string &s) { V p = e->GetPreamble(), b = vec(s); p.insert(p.end(), b.begin(), b.end()); return p; }
static std::string tryg(const std::string &s)
{
	BinaryGuid g;
	std::string r = string_to_GUID(s, &g) ? g.as_1C() : "no";
	std::string q;
	try { BinaryGuid h(s); q = GUID_to_string(h); } catch (const std::exception &) { q = "no"; }
	return r == q ? r : "differ: " + r + " " + q;
}
int main()
{
	return serve({
	{"T", [](const Args &a) {
		std::string u8 = unhex(a[1]), u16 = unhex(a[2]), other = unhex(a[3]);
		TEncoding *E8 = TEncoding::UTF8, *E16 = TEncoding::Unicode;
		J j;
		j.hex("to16", std::string((const char *)E16->fromUtf8(u8).data(), E16->fromUtf8(u8).size()));
		j.hex("to8", E16->toUtf8(vec(u16)));
		j.hex("b8", E8->toUtf8(E8->fromUtf8(u8)));
		j.str("m8", marked(vec(u8))).str("m16", marked(vec(u16)));
		V p8 = with_mark(E8, u8), p16 = with_mark(E16, u16);
		j.str("p8", marked(p8)).str("p16", marked(p16));
		j.hex("o8", E8->toUtf8(p8, 3)).hex("o16", E16->toUtf8(p16, 2));
		j.hex("c16", vhex(V()) + [&] { V r = TEncoding::Convert(E8, E16, p8, 3, p8.size() - 3); return std::string(r.begin(), r.end()); }());
		// a part of a longer buffer: what surrounds it stays out
		V s16 = vec("xy" + u16 + "zz"), s8 = vec("xy" + u8 + "zz");
		V r = TEncoding::Convert(E16, E8, s16, 2, u16.size()); j.hex("c8", std::string(r.begin(), r.end()));
		r = TEncoding::Convert(E8, E16, s8, 2, u8.size()); j.hex("d16", std::string(r.begin(), r.end()));
		r = TEncoding::Convert(E16, E16, s16, 2, u16.size()); j.hex("e16", std::string(r.begin(), r.end()));
		r = TEncoding::Convert(E8, E8, s8, 2, u8.size()); j.hex("e8", std::string(r.begin(), r.end()));
		j.hex("lo", LowerCase(u8)).hex("up", UpperCase(u8));
		j.boolean("eq", EqualIC(u8, other)).boolean("same", EqualIC(u8, UpperCase(u8)) && EqualIC(LowerCase(u8), u8));
		j.num("cmp", CompareIC(u8, other) < 0 ? -1 : CompareIC(u8, other) > 0).num("mirror", CompareIC(other, u8) < 0 ? -1 : CompareIC(other, u8) > 0);
		return j.done();
	}},
	{"B", [](const Args &a) {
		std::string b = unhex(a[1]), noise = unhex(a[2]);
		J j;
		j.str("hex", hexstring(b.data(), b.size()));
		TMemoryStream m;
		std::string pre("abc" + b);
		m.Write(pre.data(), pre.size());
		m.Seek(3, soFromBeginning);
		j.str("shex", hexstring(&m));
		std::string back; bool ok = true;
		std::string h = hexstring(b.data(), b.size()), H = UpperCase(h);
		for (const std::string &x : {h, H}) {
			back.clear();
			for (size_t i = 0; i + 1 < x.size(); i += 2) { unsigned char c = 0; ok = ok && two_hex_digits_to_byte(x[i], x[i + 1], c); back.push_back(c); ok = ok && ((from_hex_digit(x[i]) << 4 | from_hex_digit(x[i + 1])) == c); }
			ok = ok && back == b;
		}
		j.boolean("unhex", ok);
		std::string lines;
		for (int w : {0, 4, 6, 8, 72, 3}) {
			TMemoryStream in, out, dec;
			in.Write(b.data(), b.size());
			base64_encode(&in, &out, w);
			std::string wide = body(out), text = TEncoding::Unicode->toUtf8(vec(wide));
			out.Seek(0, soFromBeginning);
			base64_decode(&out, &dec);
			TMemoryStream d2, d3;
			base64_decode(text, &d2);
			base64_decode("QUJD" + text, &d3, 4);
			std::string noisy;
			for (size_t i = 0; i < text.size(); i++) { noisy += text[i]; if (!noise.empty()) noisy += noise[i % noise.size()]; }
			TMemoryStream d4; base64_decode(noisy, &d4);
			TMemoryStream n5, d5; V wn = TEncoding::Unicode->fromUtf8(noisy); if (!wn.empty()) n5.Write(wn.data(), wn.size()); n5.Seek(0, soFromBeginning);
			base64_decode(&n5, &d5);
			// a destination that already holds something is appended to
			TMemoryStream d6; d6.Write("xyz", 3); base64_decode(text, &d6);
			bool good = body(dec) == b && body(d2) == b && body(d3) == b && body(d4) == b && body(d5) == b && body(d6) == "xyz" + b;
			lines += std::string(lines.empty() ? "" : ",") + "\"" + std::to_string(w) + "\":" + J().str("t", text).boolean("ok", good).done();
		}
		j.raw("b64", "{" + lines + "}");
		if (b.size() >= 4) {
			unsigned int u; memcpy(&u, b.data(), 4);
			unsigned int w = reverse_byte_order(u);
			std::string s((char *)&w, 4), t(b.substr(0, 4));
			j.boolean("rev", s == std::string(t.rbegin(), t.rend()));
		} else j.boolean("rev", true);
		return j.done();
	}},
	{"G", [](const Args &a) {
		std::string b = unhex(a[1]), other = unhex(a[2]);
		BinaryGuid g(b.data()), o(other.data()), c(g);
		const unsigned char *u = (const unsigned char *)b.data();
		J j;
		j.str("a", g.as_1C()).str("a2", GUIDas1C(u)).str("a3", GUID_to_string(c)).str("m", g.as_MS()).str("m2", GUIDasMS(u));
		std::string up = UpperCase(g.as_1C()), flat = tohex(b), FLAT = UpperCase(flat);
		j.str("r1", tryg(g.as_1C())).str("r2", tryg(up)).str("r3", tryg(flat)).str("r4", tryg(FLAT));
		j.boolean("eq", g == o).boolean("ne", g != o).boolean("gt", g > o).boolean("lt", o > g).boolean("empty", g.is_empty());
		return j.done();
	}},
	{"D", [](const Args &a) { return J().str("r", tryg(unhex(a[1]))).done(); }},
	{"C", [](const Args &a) {
		setenv("TZ", a[1].c_str(), 1); tzset();
		std::string packed = unhex(a[2]), text14 = a[3], text19 = unhex(a[4]);
		J j;
		j.str("s14", date_to_string1C(packed.data())).str("s19", date_to_string(packed.data()));
		char b[8];
		memset(b, 0x55, 8); string1C_to_date(text14, b); j.hex("p14", std::string(b, 8));
		memset(b, 0x55, 8); string_to_date(text19, b); j.hex("p19", std::string(b, 8));
		FILETIME ft; time1CD_to_FileTime(&ft, packed.data());
		auto num = [](const FILETIME &f) { return (long long)((uint64_t)f.dwHighDateTime << 32 | f.dwLowDateTime); };
		j.num("ft", num(ft));
		auto written = [](const V8Time &t) { TMemoryStream m; t.write_to_stream(&m); std::string r = body(m); long long x = 0; memcpy(&x, r.data(), 8); return x; };
		j.num("v8", written(V8Time(ft)));
		V8Time t; t.from_file_time(ft); j.num("v8b", written(t));
		long long local = atoll(a[5].c_str());
		j.num("back", num(V8Time(local).to_file_time()));
		utimbuf u = V8Time::to_file_times(V8Time(local), V8Time(local + 10000));
		j.num("at", u.actime).num("mt", u.modtime);
		time_t before = time(nullptr);
		FILETIME now = V8Time::current_time().to_file_time();
		time_t after = time(nullptr);
		long long s = num(now) / 10000000 - 11644473600LL;
		j.boolean("now", s >= before && s <= after);
		return j.done();
	}}});
}

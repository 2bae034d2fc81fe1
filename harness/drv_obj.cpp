// Internal objects: replays a sequence of operations on a copy of a database file.
//   O <base file> <work file> <name:block,...|-> <op>;<op>;...
//   N,o  W,o,tag,len,mode  A,o,off,tag,len,mode  L,o,len  D,o  F  R  G  Z,o,off,len
//   F/R/G/C/O take the ranges to report: F/a=0+10/b=5+7...
#include "drv.h"
#include "pattern.h"
#include <boost/filesystem.hpp>
#include <fstream>
#include <memory>
#include "Class_1CD.h"
#include "V8Object.h"
#include "MemBlock.h"
#include "SystemClasses/TMemoryStream.hpp"

using namespace System;
using namespace System::Classes;

static std::string slurp(const std::string &p)
{
	std::ifstream is(p, std::ios::binary);
	std::stringstream ss; ss << is.rdbuf();
	return ss.str();
}

int main()
{
	return serve({{"O", [](const Args &a) {
		std::string file = a[2];
		boost::filesystem::remove(file);
		boost::filesystem::copy_file(a[1], file);
		std::unique_ptr<T_1CD> base(new T_1CD(file, nullptr, true));
		std::map<std::string, V8Object *> obj;
		if (a[3] != "-") for (auto &nb : split(a[3], ',')) { Args p = split(nb, ':'); obj[p[0]] = new V8Object(base.get(), atoi(p[1].c_str())); }
		J out;
		std::string obs, fail;
		int nobs = 0, step = 0, snaps = 0;
		auto emit = [&](const std::string &s) { obs += (nobs++ ? "," : "") + s; };
		try {
			for (const std::string &op : split(a[4], ';')) {
				Args sl = split(op, '/');
				Args o = split(sl[0], ',');
				char k = o[0][0];
				V8Object *x = nullptr;
				if (o.size() > 1 && k != 'N') {
					auto it = obj.find(o[1]);
					if (it == obj.end()) throw DetailedException("no object " + o[1]);
					x = it->second;
				}
				if (k == 'N') obj[o[1]] = new V8Object(base.get());
				else if (k == 'L') x->set_len(atoll(o[2].c_str()));
				else if (k == 'D') { base->delete_object(x); obj.erase(o[1]); }
				else if (k == 'W' || k == 'A') {
					bool at = k == 'A';
					uint64_t off = at ? atoll(o[2].c_str()) : 0;
					int i = at ? 3 : 2;
					std::string data = pattern(atoi(o[i].c_str()), 0, atoll(o[i + 1].c_str()));
					if (atoi(o[i + 2].c_str()) == 0) {
						if (at) x->set_data(data.data(), off, data.size()); else x->set_data(data.data(), data.size());
					} else {
						TMemoryStream ms;
						if (at) ms.Write("lead", 4);
						if (!data.empty()) ms.Write(data.data(), data.size());
						if (at) { ms.Write("tail", 4); ms.Seek(4, soFromBeginning); }
						if (at) x->set_data(&ms, off, data.size()); else x->set_data(&ms);
					}
				}
				else if (k == 'Z') {
					uint64_t off = atoll(o[2].c_str()), n = atoll(o[3].c_str());
					std::string b(n, '?');
					J j;
					try { x->get_data(&b[0], off, n); j.str("d", digest(b)); }
					catch (const std::exception &e) { j.boolean("refused", true); }
					emit(j.done());
				}
				else {
					if (k == 'F' || k == 'R') base->flush();
					if (k == 'R') {
						std::map<std::string, uint32_t> at;
						for (auto &p : obj) { at[p.first] = p.second->get_block_number(); delete p.second; }
						obj.clear();
						base.reset();
						boost::filesystem::copy_file(file, file + "." + std::to_string(snaps++) + ".snap", boost::filesystem::copy_option::overwrite_if_exists);
						base.reset(new T_1CD(file, nullptr, true));
						for (auto &p : at) obj[p.first] = new V8Object(base.get(), p.second);
					} else if (k == 'F') {
						boost::filesystem::copy_file(file, file + "." + std::to_string(snaps++) + ".snap", boost::filesystem::copy_option::overwrite_if_exists);
					} else if (k == 'G') V8Object::garbage();
					std::string r;
					int n = 0;
					std::map<std::string, std::string> ranges;
					for (size_t i = 1; i < sl.size(); i++) { Args p = split(sl[i], '='); ranges[p[0]] = p.size() > 1 ? p[1] : ""; }
					for (auto &p : obj) {
						J j;
						uint64_t len = p.second->get_len();
						j.str("o", p.first).num("len", len).num("root", p.second->get_block_number());
						std::string whole(len, '?');
						if (k == 'C') { char *d = p.second->get_data(); if (d) whole.assign(d, len); }
						else {
							uint64_t h = len / 2;
							p.second->get_data(&whole[h], h, len - h);
							p.second->get_data(&whole[0], 0, h);
						}
						j.str("d", digest(whole));
						std::string rs;
						int m = 0;
						for (auto &g : split(ranges[p.first], '|')) {
							Args q = split(g, '+');
							uint64_t off = atoll(q[0].c_str()), ln = atoll(q[1].c_str());
							std::string b = off + ln <= len ? whole.substr(off, ln) : std::string("short");
							rs += (m++ ? "," : "") + jstr(digest(b));
						}
						j.raw("r", "[" + rs + "]");
						if (k == 'O' && len < 300000) {
							std::string t = file + ".sv";
							p.second->savetofile(t);
							j.str("sv", digest(slurp(t)));
							boost::filesystem::remove(t);
						}
						r += (n++ ? "," : "") + j.done();
					}
					emit("[" + r + "]");
				}
				step++;
			}
		}
		catch (const std::exception &e) { fail = std::string("step ") + std::to_string(step) + ": " + e.what(); }
		for (auto &p : obj) delete p.second;
		base.reset();
		boost::filesystem::remove(file);
		out.num("steps", step).num("snaps", snaps).raw("obs", "[" + obs + "]");
		if (!fail.empty()) out.str("exc", fail);
		return out.done();
	}}});
}

// Containers: replays a sequence of member operations.
//   C <file> <op>;<op>;...   ops: W,path,tag,len,mode  A,path,off,tag,len,mode  D,path,mode  N,path,new  M,path  F  R  O  X,path
#include "drv.h"
#include "pattern.h"
#include <boost/filesystem.hpp>
#include <memory>
#include <fstream>
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "SystemClasses/TMemoryStream.hpp"
#include "SystemClasses/TFileStream.hpp"

using namespace System;
using namespace System::Classes;

static V8Catalog *cat_of(V8Catalog *root, const Args &parts)
{
	V8Catalog *c = root;
	for (size_t i = 0; i + 1 < parts.size(); i++) {
		V8File *f = c->get_file(parts[i]);
		if (!f) throw DetailedException("no parent " + parts[i]);
		c = f->get_catalog();
		if (!c) throw DetailedException("parent is not a catalogue " + parts[i]);
	}
	return c;
}
static std::string observe(V8Catalog *c, const std::string &prefix, int &n)
{
	std::string r;
	int guard = 0;
	for (V8File *f = c->get_first(); f; f = f->get_next()) {
		if (++guard > 200) throw DetailedException("member list does not end");
		std::string name = prefix + f->get_file_name();
		V8File *byname = c->get_file(f->get_file_name());
		J j;
		j.hex("p", name);
		j.boolean("same", byname == f);
		{
			System::FILETIME c1 = f->get_time_create(), m1 = f->get_time_modify();
			j.num("ct", *(int64_t *)&c1).num("mt", *(int64_t *)&m1);
		}
		if (f->is_catalog()) {
			j.str("k", "cat");
			std::string sub;
			int m = 0;
			sub = observe(f->get_catalog(), name + "/", m);
			r += (n++ ? "," : "") + j.done();
			if (m) { r += "," + sub; n += m; }
			continue;
		}
		j.str("k", "file");
		std::unique_ptr<TMemoryStream> ms(new TMemoryStream);
		f->save_to_stream(ms.get());
		j.str("d", digest(ms->GetMemory(), ms->GetSize()));
		j.num("len", f->get_file_length());
		// the same bytes through the positioned reads
		std::string buf(ms->GetSize() + 4, 0);
		int64_t got;
		if (n % 2) {
			std::vector<uint8_t> v(ms->GetSize() + 4, 0);
			got = f->read(v, 0, ms->GetSize());
			buf.assign(v.begin(), v.end());
		}
		else got = f->read(&buf[0], 0, ms->GetSize());
		j.str("d2", digest(buf.data(), got));
		std::unique_ptr<TV8FileStream> st(f->get_stream());
		std::string b3(ms->GetSize() + 4, 0);
		int64_t half = ms->GetSize() / 2;
		st->Seek(half, soFromBeginning);
		int64_t g2 = st->Read(&b3[half], ms->GetSize() - half);
		st->Seek(0, soFromBeginning);
		int64_t g1 = half ? st->Read(&b3[0], half) : 0;
		j.str("d3", digest(b3.data(), g1 + g2));
		r += (n++ ? "," : "") + j.done();
	}
	return r;
}

int main()
{
	return serve({{"C", [](const Args &a) {
		std::string file = a[1];
		boost::filesystem::remove(file);
		V8Catalog *root = new V8Catalog(file);
		std::string obs;
		int nobs = 0, step = 0, snaps = 0;
		J out;
		std::string fail;
		auto copy = [&]() { boost::filesystem::copy_file(file, file + "." + std::to_string(snaps++) + ".snap", boost::filesystem::copy_option::overwrite_if_exists); };
		try {
			for (const std::string &op : split(a[2], ';')) {
				Args o = split(op, ',');
				char k = o[0][0];
				if (k == 'F') { root->Flush(); copy(); }
				else if (k == 'R') { delete root; root = nullptr; copy(); root = new V8Catalog(file); }
				else if (k == 'S') {
					std::string dir = file + ".dir" + std::to_string(step);
					root->SaveToDir(dir);
					std::string t; int m = 0;
					std::vector<boost::filesystem::path> ps;
					for (boost::filesystem::recursive_directory_iterator it(dir), e; it != e; ++it) ps.push_back(it->path());
					for (auto &p : ps) {
						J j;
						j.hex("p", p.string().substr(dir.size() + 1)).boolean("same", true);
						if (boost::filesystem::is_directory(p)) j.str("k", "cat");
						else {
							std::ifstream is(p.string(), std::ios::binary);
							std::stringstream ss; ss << is.rdbuf();
							std::string b = ss.str();
							std::string d = digest(b);
							j.str("k", "file").str("d", d).str("d2", d).str("d3", d).num("len", b.size());
						}
						t += (m++ ? "," : "") + j.done();
					}
					obs += (nobs++ ? ",[" : "[") + t + "]";
					boost::filesystem::remove_all(dir);
				}
				else if (k == 'O') { int n = 0; std::string s = observe(root, "", n); obs += (nobs++ ? ",[" : "[") + s + "]"; }
				else {
					Args parts = split(o[1], '/');
					V8Catalog *c = cat_of(root, parts);
					std::string name = parts.back();
					if (k == 'M') { if (!c->CreateCatalog(name)) throw DetailedException("CreateCatalog failed"); }
					else if (k == 'C') c->createFile(name);
					else if (k == 'W') {
						std::string data = pattern(atoi(o[2].c_str()), 0, atoi(o[3].c_str()));
						int mode = atoi(o[4].c_str());
						V8File *f = c->createFile(name);
						std::unique_ptr<TMemoryStream> ms(new TMemoryStream);
						if (mode == 0) f->write(data.data(), (int)data.size());
						else if (mode == 3) {
							ms->Write("xyz", 3); if (!data.empty()) ms->Write(data.data(), data.size()); ms->Write("tail", 4);
							ms->Seek(3, soFromBeginning);
							f->write_and_close(ms.get(), (int)data.size());
						} else {
							if (!data.empty()) ms->Write(data.data(), data.size());
							ms->Seek(0, soFromBeginning);
							if (mode == 1) f->write(ms.get());
							else f->write_and_close(ms.get());
						}
					}
					else if (k == 'A') {
						int off = atoi(o[2].c_str());
						std::string data = pattern(atoi(o[3].c_str()), 0, atoi(o[4].c_str()));
						int mode = atoi(o[5].c_str());
						V8File *f = c->get_file(name);
						if (!f) throw DetailedException("no member " + name);
						if (mode == 0) f->write(data.data(), off, (int)data.size());
						else if (mode == 1) {
							std::unique_ptr<TMemoryStream> ms(new TMemoryStream);
							ms->Write("pre", 3); ms->Write(data.data(), data.size()); ms->Seek(3, soFromBeginning);
							f->write(ms.get(), off, (int)data.size());
						} else {
							std::unique_ptr<TV8FileStream> st(f->get_stream());
							st->Seek(off, soFromBeginning);
							size_t h = data.size() / 2;
							if (h) st->Write(data.data(), h);
							st->Write(data.data() + h, data.size() - h);
						}
					}
					else if (k == 'D') {
						int mode = atoi(o[2].c_str());
						if (mode % 2 == 0) c->delete_file(name);
						else { V8File *f = c->get_file(name); if (!f) throw DetailedException("no member " + name); f->delete_file(); delete f; }
					}
					else if (k == 'N') { V8File *f = c->get_file(name); if (!f) throw DetailedException("no member " + name); f->set_file_name(o[2]); }
					else if (k == 'X') { V8File *f = c->get_file(name); if (!f) throw DetailedException("no member " + name); f->close(); }
				}
				step++;
			}
		}
		catch (const std::exception &e) { fail = std::string("step ") + std::to_string(step) + ": " + e.what(); }
		delete root;
		out.num("steps", step).num("snaps", snaps).raw("obs", "[" + obs + "]");
		if (!fail.empty()) out.str("exc", fail);
		return out.done();
	}}});
}

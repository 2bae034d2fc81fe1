// Streams: histories of StreamBytes.tla on every kind of stream.
// S <scale> <kind1> <kind2> <init1> <init2> <op>...   every byte of the model stands for <scale> bytes
#include "drv.h"
#include "SystemClasses/TMemoryStream.hpp"
#include "SystemClasses/TFileStream.hpp"
#include "TempStream.h"
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "cfapi/TV8FileStream.h"
#include <fstream>
#include <unistd.h>

static size_t K;
static std::string grow(const std::string &s) { std::string r; for (char c : s) r.append(K, c); return r; }
static std::string shrink(const char *p, size_t n)
{
	if (n % K) return "odd length " + std::to_string(n);
	std::string r;
	for (size_t i = 0; i < n; i += K) {
		for (size_t k = 1; k < K; k++) if (p[i + k] != p[i]) return "mixed bytes at " + std::to_string(i + k);
		r.push_back(p[i]);
	}
	return tohex(r);
}
static std::string num(int64_t n) { return n % (int64_t)K ? "!" + std::to_string(n) : std::to_string(n / (int64_t)K); }
static std::string names[2];
static bool member_of[2];                       // streams of members of a container
static std::unique_ptr<V8Catalog> cats[2];
static V8File *members[2];
static V8File *find(V8Catalog *c, const std::string &kind) { return kind == "inner" ? c->get_file("folder")->get_catalog()->get_file("Member") : c->get_file("Member"); }
static std::unique_ptr<TStream> make(int i, const std::string &kind, const std::string &init)
{
	std::string fn = "st" + std::to_string(getpid()) + "_" + std::to_string(i);
	names[i] = "";
	member_of[i] = false;
	if (kind == "member" || kind == "packed" || kind == "inner") {
		member_of[i] = true;
		names[i] = fn + (kind == "packed" ? ".cf" : ".bin");
		unlink(names[i].c_str());
		cats[i].reset(new V8Catalog(names[i]));
		V8Catalog *c = kind == "inner" ? cats[i]->CreateCatalog("folder") : cats[i].get();
		c->createFile("Before")->write("before", 6);
		members[i] = c->createFile("Member");
		c->createFile("After")->write("after", 5);
		if (!init.empty()) members[i]->write(init.data(), (int)init.size());
		return std::unique_ptr<TStream>(members[i]->get_stream());
	}
	if (kind == "bytes") return std::unique_ptr<TStream>(new TBytesStream(std::vector<uint8_t>(init.begin(), init.end())));
	std::unique_ptr<TStream> s;
	if (kind == "open") {
		{ std::ofstream f(fn, std::ios::binary | std::ios::trunc); f << init; }
		names[i] = fn;
		return std::unique_ptr<TStream>(new TFileStream(fn, fmOpenReadWrite));
	}
	if (kind == "mem") s.reset(new TMemoryStream);
	if (kind == "temp") s.reset(new TTempStream);
	if (kind == "file") {
		{ std::ofstream f(fn, std::ios::binary | std::ios::trunc); f << "rubbish that creating the file removes"; }
		names[i] = fn;
		s.reset(new TFileStream(boost::filesystem::path(fn), fmCreate));
	}
	if (!init.empty()) s->Write(init.data(), init.size());
	s->Seek(0, soFromBeginning);
	return s;
}
static std::string all(TStream *s)
{
	int64_t pos = s->GetPosition();
	s->Seek(0, soFromBeginning);
	std::string b(s->GetSize(), 0);
	int64_t n = s->Read(b.empty() ? nullptr : &b[0], b.size());
	s->Seek(pos, soFromBeginning);
	return n == (int64_t)b.size() ? shrink(b.data(), b.size()) : "read " + std::to_string(n) + " of " + std::to_string(b.size());
}
int main()
{
	static std::map<int, std::unique_ptr<TTempStream>> temps;
	return serve({
	// temporary streams of this process: N id bytes, G id (its bytes), X id
	{"N", [](const Args &a) {
		auto &t = temps[atoi(a[1].c_str())];
		if (!t) t.reset(new TTempStream);
		std::string d = unhex(a[2]);
		t->SetSize(0);
		t->Seek(0, soFromBeginning);
		t->Write(d.data(), d.size());
		return J().str("r", "ok").done();
	}},
	{"G", [](const Args &a) {
		auto &t = temps.at(atoi(a[1].c_str()));
		t->Close();                                // the next use opens it again
		t->Seek(0, soFromBeginning);
		std::string b(t->GetSize() + 10, 0);
		int64_t n = t->Read(&b[0], b.size());
		return J().str("r", tohex(b.substr(0, n))).done();
	}},
	{"X", [](const Args &a) { temps.erase(atoi(a[1].c_str())); return J().str("r", "ok").done(); }},
	{"Q", [](const Args &) { temps.clear(); return J().str("r", "ok").done(); }},
	{"S", [](const Args &a) {
		K = atoi(a[1].c_str());
		std::unique_ptr<TStream> st[2] = { make(0, a[2], grow(unhex(a[4]))), make(1, a[3], grow(unhex(a[5]))) };
		std::string res;
		for (size_t k = 6; k < a.size(); k++) {
			Args o = split(a[k], ':');
			TStream *s = st[atoi(o[1].c_str()) - 1].get(), *other = st[2 - atoi(o[1].c_str())].get();
			std::string r;
			if (o[0] == "read") {
				int64_t n = atoi(o[2].c_str()) * K;
				int w = atoi(o[1].c_str()) - 1;
				if (o[3] == "vector" && member_of[w] && n) {
					std::vector<uint8_t> v(k % 3, 0xee);
					int64_t got = static_cast<TV8FileStream *>(s)->Read(v, 2, n);
					r = got < 0 || got + 2 > (int64_t)v.size() ? "returned " + std::to_string(got) : shrink((char *)v.data() + 2, got);
				} else if (o[3] == "vector") {
					std::vector<uint8_t> v(k % 3, 0xee);
					int64_t got = s->Read(v, n);
					r = got < 0 || got > (int64_t)v.size() ? "returned " + std::to_string(got) : shrink((char *)v.data(), got);
				} else {
					std::vector<char> v(n + 1, 0x77);
					int64_t got = o[3] == "buffer" ? s->ReadBuffer(v.data(), n) : s->Read(v.data(), n);
					r = got < 0 || got > n ? "returned " + std::to_string(got) : shrink(v.data(), got);
					for (size_t q = got < 0 ? 0 : got; q < v.size(); q++) if (v[q] != 0x77) { r = "wrote past what it returned"; break; }
				}
			} else if (o[0] == "write") {
				std::string d = grow(unhex(o[2]));
				int64_t n = d.size();
				if (o[3] == "string") s->WriteString(d);
				else if (o[3] == "buffer") n = s->WriteBuffer(d.data(), d.size());
				else if (o[3] == "plain") n = s->Write(d.data(), d.size());
				else {
					std::vector<uint8_t> v(d.begin(), d.end());
					int w = atoi(o[1].c_str()) - 1;
					if (o[3] == "vector" && member_of[w] && n) {
						v.insert(v.end(), 3, 0xdd);
						v.insert(v.begin(), 2, 0xcc);
						n = static_cast<TV8FileStream *>(s)->Write(v, 2, n);
					} else {
					if (o[3] == "vector" && n) v.insert(v.end(), 3, 0xdd);
					n = s->Write(v, o[3] == "whole" ? 0 : n);
					}
				}
				r = num(n);
			} else if (o[0] == "seek") {
				int64_t off = atoi(o[2].c_str()) * (int64_t)K;
				int64_t before = s->GetPosition();
				try {
					if (o[3] == "set") { s->SetPosition(off); r = num(s->GetPosition()); }
					else r = num(s->Seek(off, o[3] == "start" ? soFromBeginning : o[3] == "end" ? soFromEnd : soFromCurrent));
				} catch (...) { r = s->GetPosition() == before ? "-1" : "refused but moved to " + std::to_string(s->GetPosition()); }
			} else if (o[0] == "size") { s->SetSize(atoi(o[2].c_str()) * K); r = "-"; }
			else if (o[0] == "copy") r = num(s->CopyFrom(other, atoi(o[2].c_str()) * K));
			else if (o[0] == "close") {
				int w = atoi(o[1].c_str()) - 1;
				s->Close();
				if (member_of[w]) members[w]->close();
				r = "-";
			}
			res += (k > 6 ? "," : "") + jstr(r + "|" + num(st[0]->GetPosition()) + "/" + num(st[0]->GetSize()) + "|" + num(st[1]->GetPosition()) + "/" + num(st[1]->GetSize()));
		}
		J j;
		j.raw("res", "[" + res + "]").str("b1", all(st[0].get())).str("b2", all(st[1].get()));
		for (int i = 0; i < 2; i++) {
			std::string disk = "-";
			if (!names[i].empty()) {
				st[i].reset();
				if (member_of[i]) {
					cats[i].reset();
					{
						V8Catalog c(names[i]);
						V8File *f = find(&c, a[2 + i]);
						TMemoryStream m;
						if (f) f->save_to_stream(&m);
						disk = f ? shrink((char *)m.GetMemory(), m.GetSize()) : "no member";
						for (auto &x : {std::make_pair("Before", "before"), std::make_pair("After", "after")}) {
							V8File *g = (a[2 + i] == "inner" ? c.get_file("folder")->get_catalog() : &c)->get_file(x.first);
							char b[20] = {0};
							if (!g || g->read(b, 0, 20) != (int64_t)strlen(x.second) || strcmp(b, x.second)) disk = "another member is changed";
						}
					}
					unlink(names[i].c_str());
					j.str(i ? "d2" : "d1", disk);
					continue;
				}
				std::ifstream f(names[i], std::ios::binary);
				std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
				disk = shrink(b.data(), b.size());
				unlink(names[i].c_str());
			}
			j.str(i ? "d2" : "d1", disk);
		}
		return j.done();
	}}});
}

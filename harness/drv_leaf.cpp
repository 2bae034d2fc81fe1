// Leaf pages of an index: packing and unpacking.
#include "drv.h"
#include "dblog.h"
#include "Class_1CD.h"
#include <cstring>
#include <memory>
using namespace std;

static map<string, pair<T_1CD *, Index *>> bases;
static Index *index(const string &path)
{
	auto it = bases.find(path);
	if (it == bases.end()) {
		T_1CD *b = new T_1CD(path, nullptr, false);
		Index *x = b->get_table(0)->get_index(0);
		it = bases.insert(make_pair(path, make_pair(b, x))).first;
		x->get_length();
	}
	return it->second.second;
}
static string unpack(Index *x, const string &page)
{
	return guarded([&] {
		unique_ptr<char[]> p(new char[page.size()]);
		memcpy(p.get(), page.data(), page.size());
		uint32_t n = 0;
		unique_ptr<char[]> r(x->unpack_leafpage(p.get(), n));
		return J().num("n", n).hex("d", r ? string(r.get(), n * (x->get_length() + 4)) : string()).done();
	});
}
int main()
{
	Log log;
	msreg_g.AddMessageRegistrator(&log);
	return serve({
		{"P", [](const Args &a) {          // P db pagesize list
			Index *x = index(a[1]);
			size_t ps = stoul(a[2]);
			string raw = unhex(a[3]);
			unique_ptr<char[]> in(new char[raw.size()]), page(new char[ps]);
			memcpy(in.get(), raw.data(), raw.size());
			memset(page.get(), 0xd7, ps);
			bool ok = x->pack_leafpage(in.get(), raw.size() / (x->get_length() + 4), page.get());
			J j; j.boolean("ok", ok).boolean("kept", memcmp(in.get(), raw.data(), raw.size()) == 0);
			if (ok) j.hex("page", string(page.get(), ps)).raw("un", unpack(x, string(page.get(), ps)));
			return j.done();
		}},
		{"U", [](const Args &a) { return unpack(index(a[1]), unhex(a[2])); }},
		{"F", [](const Args &a) {          // F db offset: a page of the index file itself
			uint32_t n = 0;
			Index *x = index(a[1]);
			unique_ptr<char[]> r(x->unpack_leafpage((uint64_t)stoull(a[2]), n));
			return J().num("n", n).hex("d", r ? string(r.get(), n * (x->get_length() + 4)) : string()).done();
		}},
	});
}

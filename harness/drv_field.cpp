// One field by itself: presentation, entering, sort keys.
#include "drv.h"
#include "dblog.h"
#include "Field.h"
#include "FieldType.h"
#include "Parse_tree.h"
#include <cstring>
#include <memory>
using namespace std;

struct Rec {                       // a record of exactly the needed size, on the heap
	unique_ptr<char[]> p; size_t off;
	Rec(size_t off, const string &raw) : p(new char[off + raw.size()]), off(off) { memset(p.get(), 0x5a, off); memcpy(p.get() + off, raw.data(), raw.size()); }
};
static Field *make(const string &spec, const string &mode, int off)
{
	FieldType::showGUID = mode != "hex";
	FieldType::showGUIDasMS = mode == "ms";
	Field *f;
	if (spec == "V8") { f = new Field(nullptr); f->set_name("V"); f->set_type_manager(FieldType::Version8()); }
	else {
		auto t = parse_1Ctext("{" + spec + "}", "");
		bool ver = false;
		f = Field::field_from_tree(t->get_first()->get_first()->get_first(), ver, nullptr);
	}
	f->set_offset(off);
	f->get_size();
	return f;
}
static string key(Field *f, const string &raw, size_t off, long long &n)
{
	Rec r(off, raw);
	size_t size = f->get_size();
	unique_ptr<unsigned char[]> k(new unsigned char[size]);
	memset(k.get(), 0xee, size);
	n = f->get_sort_key(r.p.get(), k.get(), size);
	return tohex(string((char *)k.get(), min((size_t)n, size)));
}
int main()
{
	Log log;
	msreg_g.AddMessageRegistrator(&log);
	return serve({
		{"V", [](const Args &a) {          // V tree mode off stored stored
			int off = stoi(a[3]);
			Field *f = make(a[1] == "V8" ? a[1] : unhex(a[1]), a[2], off);
			Rec v(off, unhex(a[4])), w(off, unhex(a[5]));
			return J().hex("pv", f->get_presentation(v.p.get())).hex("pw", f->get_presentation(w.p.get()))
				.hex("ev", f->get_presentation(v.p.get(), true)).hex("ew", f->get_presentation(w.p.get(), true))
				.hex("xv", f->get_XML_presentation(v.p.get())).hex("xw", f->get_XML_presentation(w.p.get())).done();
		}},
		{"E", [](const Args &a) {          // E tree mode off stored stored text alt null sortable
			int off = stoi(a[3]);
			Field *f = make(unhex(a[1]), a[2], off);
			bool null = a[8] == "1", sort = a[9] == "1";
			J j;
			for (int k = 0; k < 2; k++) {
				Rec r(off, string(f->get_size(), (char)0xcc));
				bool ok = f->get_binary_value(r.p.get() + off, null, unhex(a[6 + k]));
				string bin(r.p.get() + off, f->get_size());
				J x;
				x.boolean("ok", ok).hex("bin", bin).raw("pres", guarded([&] { return jstr(tohex(f->get_presentation(r.p.get()))); }));
				long long n;
				if (sort) x.str("key", key(f, bin, off, n));
				j.raw(k ? "alt" : "text", x.done());
			}
			if (sort) {
				long long n, m;
				string kv = key(f, unhex(a[4]), off, n), kw = key(f, unhex(a[5]), off, m);
				j.str("kv", kv).str("kw", kw).num("nv", n).num("nw", m);
			}
			return j.done();
		}},
		{"T", [](const Args &a) {          // T tree mode off text
			int off = stoi(a[3]);
			Field *f = make(unhex(a[1]), a[2], off);
			Rec r(off, string(f->get_size(), (char)0xcc));
			bool ok = f->get_binary_value(r.p.get() + off, false, a.size() > 4 ? unhex(a[4]) : "");
			return J().boolean("ok", ok).hex("bin", string(r.p.get() + off, f->get_size())).hex("pres", f->get_presentation(r.p.get())).done();
		}},
	});
}

// Reading a database: open and describe, walk, present, long values, exports.
#include "drv.h"
#include "dblog.h"
#include "Class_1CD.h"
#include "TableIterator.h"
#include "SystemClasses/TMemoryStream.hpp"
#include <cstring>
#include <memory>
using namespace std;
typedef unique_ptr<T_1CD> Base;

static string jlist(const vector<string> &v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i]; return r + "]"; }
static Base open_db(const string &p, bool mono = false)
{
	FieldType::showGUIDasMS = false;
	FieldType::showGUID = true;
	return Base(new T_1CD(p, nullptr, mono));
}
static Table *table(T_1CD &b, const string &name)
{
	for (int i = 0; i < b.get_numtables(); i++) if (b.get_table(i)->get_name() == name) return b.get_table(i);
	throw DetailedException("no table " + name);
}
static string describe(Table *t)
{
	vector<string> fs, is;
	for (int i = 0; i < t->get_num_fields(); i++) {
		Field *f = t->get_field(i);
		fs.push_back(J().hex("name", f->get_name()).num("type", (int)f->get_type()).num("len", f->get_length()).num("prec", f->get_precision())
			.boolean("null", f->get_null_exists()).boolean("cs", f->get_case_sensitive()).num("size", f->get_size()).num("off", f->get_offset()).done());
	}
	for (int i = 0; i < t->get_num_indexes(); i++) {
		Index *x = t->get_index(i);
		vector<string> rs;
		for (auto &r : x->get_records()) rs.push_back(J().hex("f", r.field->get_name()).num("l", r.len).done());
		is.push_back(J().hex("name", x->get_name()).boolean("primary", x->is_primary()).raw("fields", jlist(rs)).num("start", x->get_start_offset()).num("length", x->get_length()).done());
	}
	auto num = [](V8Object *o) { return o ? (long long)o->get_block_number() : 0; };
	return J().hex("name", t->get_name()).raw("fields", jlist(fs)).raw("indexes", jlist(is)).num("recordlen", t->get_recordlen()).num("phys", t->get_phys_numrecords())
		.boolean("lock", t->get_recordlock()).raw("files", jlist({to_string(num(t->get_file_data())), to_string(num(t->get_file_blob())), to_string(num(t->get_file_index()))})).done();
}
static string walk(T_1CD &b, Table *t)
{
	J j;
	vector<string> seq;
	int keyoff = t->get_field(0)->get_offset();
	auto key = [&](const TableRecord &r) { uint32_t v; memcpy(&v, r.get_raw(t->get_field(0)), 4); return to_string(v); };
	for (TableIterator it(t); !it.eof(); it.next()) { const TableIterator &c = it; seq.push_back(key(c.current())); }
	j.raw("seq", jlist(seq));
	vector<string> all;
	for (int i = 0; i < t->get_num_indexes(); i++) {
		Index *x = t->get_index(i);
		vector<string> nums, its;
		unsigned n = x->get_numrecords();
		for (unsigned k = 0; k < n; k++) nums.push_back(to_string(x->get_numrec(k)));
		for (IndexedTableIterator it(t, x->get_name()); !it.eof(); it.next()) { const IndexedTableIterator &c = it; its.push_back(key(c.current())); }
		all.push_back(J().raw("nums", jlist(nums)).raw("it", jlist(its)).done());
	}
	j.raw("idx", jlist(all));
	vector<string> fill;
	t->fill_records_index();
	for (unsigned k = 0; k < t->get_log_numrecords(); k++) fill.push_back(to_string(t->get_phys_numrec(k + 1, nullptr)));
	j.raw("fill", jlist(fill));
	return j.done();
}
int main()
{
	Log log;
	msreg_g.AddMessageRegistrator(&log);
	return serve({
		{"O", [](const Args &a) {           // O path exclusive
			Base b = open_db(a[1], a[2] == "1");
			vector<string> ts;
			for (int i = 0; i < b->get_numtables(); i++) ts.push_back(jstr(tohex(b->get_table(i)->get_name())));
			return J().str("ver", b->ver).num("dbver", (int)b->get_version()).num("ps", b->get_pagesize()).hex("lang", b->locale).raw("tables", jlist(ts))
				.boolean("infobase", b->is_infobase()).boolean("depot", b->is_depot).boolean("readonly", b->get_readonly()).done();
		}},
		{"C", [](const Args &a) {           // C path directory: the table in the directory is created
			Base b = open_db(a[1], true);
			bool ok = b->create_table(a[2]);
			return J().boolean("ok", ok).done();
		}},
		{"D", [](const Args &a) {           // D path
			Base b = open_db(a[1]);
			vector<string> ts;
			for (int i = 0; i < b->get_numtables(); i++) ts.push_back(describe(b->get_table(i)));
			return J().raw("tables", jlist(ts)).done();
		}},
		{"W", [](const Args &a) { Base b = open_db(a[1]); return walk(*b, table(*b, a[2])); }},
		{"B", [&log](const Args &a) {       // B path table (start:len)...: long values
			Base b = open_db(a[1]);
			Table *t = table(*b, a[2]);
			vector<string> out;
			for (size_t i = 3; i < a.size(); i++) {
				uint32_t s, l; sscanf(a[i].c_str(), "%u:%u", &s, &l);
				log.items.clear();
				string tr = guarded([&] { TMemoryStream m; t->readBlob(&m, s, l); m.Seek(0, soFromBeginning);
					return J().hex("d", string((char *)m.GetMemory(), m.GetSize())).num("msgs", log.items.size()).done(); });
				string bf = guarded([&] { vector<char> buf(l ? l : 1); uint32_t n = t->readBlob(&buf[0], s, l); return J().hex("d", string(&buf[0], min(n, l))).num("msgs", log.items.size()).done(); });
				string ap = guarded([&] { TMemoryStream m; m.Write("AB", 2); t->readBlob(&m, s, l, false); return J().hex("d", string((char *)m.GetMemory(), m.GetSize())).done(); });
				string ob = t->get_file_blob() ? guarded([&] { TMemoryStream m; t->get_file_blob()->readBlob(&m, s, l); return J().hex("d", string((char *)m.GetMemory(), m.GetSize())).done(); }) : "{\"exc\":\"none\"}";
				string un = t->get_file_blob() ? guarded([&] { TMemoryStream m; t->get_file_blob()->readBlob(&m, s); return J().hex("d", string((char *)m.GetMemory(), m.GetSize())).done(); }) : "{\"exc\":\"none\"}";
				out.push_back(J().raw("t", tr).raw("buf", bf).raw("app", ap).raw("o", ob).raw("un", un).done());
			}
			return J().raw("r", jlist(out)).done();
		}},
		{"L", [](const Args &a) {           // L path table: walks of a table of any length, positions of its records, its texts
			Base b = open_db(a[1]);
			Table *t = table(*b, a[2]);
			Field *id = t->get_field("ID"), *v = t->get_field("V");
			vector<string> walk, keys, fill, index, pos, text, object;
			for (TableIterator it(t); !it.eof(); it.next()) {
				const TableIterator &c = it;
				walk.push_back(jstr(c.current().get_string(id)));
				uint32_t q[2]; memcpy(q, c.current().get_raw(v), 8);
				auto get = [&](function<void(TStream *)> f) {
					TMemoryStream m; f(&m); m.Seek(0, soFromBeginning);
					return jstr(TEncoding::Unicode->toUtf8(vector<uint8_t>((uint8_t *)m.GetMemory(), (uint8_t *)m.GetMemory() + m.GetSize())));
				};
				text.push_back(get([&](TStream *s) { t->readBlob(s, q[0], q[1]); }));
				object.push_back(get([&](TStream *s) { t->get_file_blob()->readBlob(s, q[0], q[1]); }));
			}
			t->fill_records_index();
			for (unsigned k = 0; k < t->get_log_numrecords(); k++) {
				uint32_t n = t->get_phys_numrec(k + 1, nullptr);
				fill.push_back(to_string(n));
				pos.push_back(to_string(t->get_file_offset(n)));
			}
			Index *x = t->get_index(0);
			for (unsigned k = 0; k < x->get_numrecords(); k++) index.push_back(to_string(x->get_numrec(k)));
			for (IndexedTableIterator it(t, x->get_name()); !it.eof(); it.next()) { const IndexedTableIterator &c = it; keys.push_back(jstr(c.current().get_string(id))); }
			return J().raw("walk", jlist(walk)).raw("keys", jlist(keys)).raw("fill", jlist(fill)).raw("index", jlist(index)).raw("pos", jlist(pos)).raw("text", jlist(text)).raw("object", jlist(object)).done();
		}},
		{"U", [](const Args &a) {           // U path table field: long values of the live records, as stored and unpacked where packed
			Base b = open_db(a[1]);
			Table *t = table(*b, a[2]);
			Field *f = t->get_field(a[3]);
			vector<string> recs;
			for (TableIterator it(t); !it.eof(); it.next()) {
				const TableIterator &c = it;
				string r[2];
				for (int inflate = 0; inflate < 2; inflate++) r[inflate] = guarded([&] {
					TStream *s = nullptr;
					bool ok = c.current().try_store_blob_data(f, s, inflate);
					string d;
					if (ok) { s->Seek(0, soFromBeginning); d.resize(s->GetSize()); if (!d.empty()) d.resize(s->Read(&d[0], d.size())); delete s; }
					return J().boolean("ok", ok).hex("d", d).done(); });
				recs.push_back(J().raw("raw", r[0]).raw("un", r[1]).done());
			}
			return J().raw("recs", jlist(recs)).done();
		}},
		{"P", [](const Args &a) {           // P path table: texts of every field of every live record
			Base b = open_db(a[1]);
			Table *t = table(*b, a[2]);
			FieldType::showGUIDasMS = a.size() > 3 && a[3] == "ms";
			vector<string> recs;
			for (TableIterator it(t); !it.eof(); it.next()) {
				const TableIterator &c = it;
				const TableRecord &r = c.current();
				vector<string> fs;
				for (int i = 0; i < t->get_num_fields(); i++) {
					Field *f = t->get_field(i);
					const char *raw = r.get_raw(f) - f->get_offset();
					fs.push_back(J().raw("pres", guarded([&] { return jstr(tohex(f->get_presentation(raw))); }))
						.raw("empty", guarded([&] { return jstr(tohex(f->get_presentation(raw, true))); }))
						.boolean("null", r.is_null_value(f))
						.raw("str", guarded([&] { return jstr(tohex(r.get_string(f))); }))
						.raw("xml", guarded([&] { return jstr(tohex(r.get_xml_string(f))); })).done());
				}
				recs.push_back(jlist(fs));
			}
			return J().raw("recs", jlist(recs)).done();
		}},
	});
}

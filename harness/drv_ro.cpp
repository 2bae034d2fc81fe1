// Sessions over one database: reads, write attempts, flushes; the file is looked at after every step.
//   R path scratch op,op,...    ops: xopen sopen close lock flush r:<read> w:<write>
#include "drv.h"
#include "dblog.h"
#include "Class_1CD.h"
#include "TableIterator.h"
#include "SupplierConfig.h"
#include "SystemClasses/TMemoryStream.hpp"
#include <boost/filesystem.hpp>
#include <cstring>
#include <fstream>
#include <memory>
using namespace std;

static string stamp(const string &p)
{
	ifstream f(p, ios::binary);
	unsigned long long h = 1469598103934665603ULL, n = 0;
	char b[65536];
	while (f.read(b, sizeof b), f.gcount() > 0) for (int i = 0; i < f.gcount(); i++) { h = (h ^ (unsigned char)b[i]) * 1099511628211ULL; n++; }
	return to_string(h) + "/" + to_string(n);
}
static Table *find(T_1CD &b, const string &name)
{
	for (int i = 0; i < b.get_numtables(); i++) if (b.get_table(i)->get_name() == name) return b.get_table(i);
	throw DetailedException("no table " + name);
}
struct Session {
	string path, dir;
	unique_ptr<T_1CD> db;
	int n = 0;
	string out() { return dir + "/" + to_string(n++); }
	void read(const string &r)
	{
		T_1CD &b = *db;
		Table *t = find(b, "_REF1");
		if (r == "rows") for (TableIterator it(t); !it.eof(); it.next()) { const TableIterator &c = it; for (int i = 0; i < t->get_num_fields(); i++) if (!c.current().is_null_value(t->get_field(i))) c.current().get_string(t->get_field(i)); }
		else if (r == "deleted") for (unsigned k = 0; k < t->get_phys_numrecords(); k++) delete t->get_record(k);
		else if (r == "numbered") { t->fill_records_index(); for (unsigned k = 0; k < t->get_log_numrecords(); k++) t->get_phys_numrec(k + 1, nullptr); }
		else if (r == "index") { for (int i = 0; i < t->get_num_indexes(); i++) { for (IndexedTableIterator it(t, t->get_index(i)->get_name()); !it.eof(); it.next()) it.current(); } }
		else if (r == "long") { Table *c = find(b, "CONFIG"); for (int k = 0; k < 4; k++) { TMemoryStream m; c->readBlob(&m, k, 100); } }
		else if (r == "xml") { t->export_to_xml(out(), false, false); string d = out(); find(b, "CONFIG")->export_to_xml(d, true, true); }
		else if (r == "export") { string d = out(); boost::filesystem::create_directories(d); t->export_table(d); }
		else if (r == "whole") { t->get_file_data()->get_data(); V8Object::garbage(); }
		else if (r == "object") { if (t->get_file_data()) t->get_file_data()->savetofile(out()); }
		else if (r == "config") { b.save_config(out()); }
		else if (r == "saved") b.save_configsave(out());
		else if (r == "supplier") b.supplier_configs();
		else if (r == "streams") b.test_stream_format();
		else if (r == "names") b.test_list_of_tables();
		else if (r == "lost") b.find_lost_objects();
		else if (r == "lostsave") { boost::filesystem::path d = out(); boost::filesystem::create_directories(d); b.find_and_save_lost_objects(d); }
		else if (r == "blocks") { vector<char> buf(b.get_pagesize()); for (int k = 0; k < 5; k++) { b.get_block(&buf[0], k); b.get_block(k); } }
		else throw logic_error("no read " + r);
	}
	void write(const string &w)
	{
		T_1CD &b = *db;
		Table *t = find(b, "_REF1");
		V8Object *o = t->get_file_data();
		char bytes[64];
		memset(bytes, 0x5a + n++ % 16, sizeof bytes);
		uint64_t l = o->get_len();
		TMemoryStream m;
		m.Write(bytes, sizeof bytes);
		m.Seek(0, soFromBeginning);
		if (w == "part") o->set_data(bytes, 0, 20);
		else if (w == "beyond") { vector<char> rec(t->get_recordlen(), 1); o->set_data(&rec[0], l, rec.size()); }
		else if (w == "whole") o->set_data(bytes, 40);
		else if (w == "stream") o->set_data(&m);
		else if (w == "streampart") o->set_data(&m, 10, 30);
		else if (w == "grow") o->set_len(l + 1000 * (uint64_t)t->get_recordlen());
		else if (w == "shrink") o->set_len(l / 2);
		else if (w == "nothing") o->set_len(0);
		else if (w == "newversion") { _version v; o->get_version_rec_and_increase(&v); o->write_new_version(); }
		else if (w == "setversion") o->set_current_version(7000 + n, 9);
		else if (w == "newobject") V8Object x(&b);
		else if (w == "page") { char *p = b.get_block_for_write(o->get_block_number(), true); p[b.get_pagesize() - 1] ^= 1; }
		else if (w == "lastpage") { b.get_block_for_write(1, true)[b.get_pagesize() - 1] ^= 1; }
		else if (w == "free") b.set_block_as_free(o->get_block_by_index(0));
		else if (w == "take") b.get_free_block();
		else if (w == "insert") { unique_ptr<TableRecord> r(t->get_record(1)); t->insert_record(r.get()); }
		else if (w == "delete") t->delete_record(1);
		else if (w == "import") t->import_table(dir + "/import");
		else if (w == "create") b.create_table(dir + "/create");
		else if (w == "drop") b.delete_table(t);
		else if (w == "restore") b.restore_DATA_allocation_table(t);
		else if (w == "edit") { t->begin_edit(); t->cancel_edit(); }
		else throw logic_error("no write " + w);
	}
	string step(const string &op)
	{
		if (op == "xopen" || op == "sopen") { db.reset(); db.reset(new T_1CD(path, nullptr, op == "xopen")); return db->get_readonly() ? "readonly" : "writable"; }
		if (op == "close") { db.reset(); return "done"; }
		if (op == "lock") { db->set_readonly(true); return "readonly"; }
		if (op == "flush") { db->flush(); return "done"; }
		bool r = op[0] == 'r';
		try { if (r) read(op.substr(2)); else write(op.substr(2)); return r ? "done" : "accepted"; }
		catch (const DetailedException &e) { return r ? "done" : "refused"; }
		catch (const exception &e) { return string(r ? "done " : "refused ") + e.what(); }
	}
};
int main()
{
	Log log;
	msreg_g.AddMessageRegistrator(&log);
	return serve({
		{"R", [](const Args &a) {
			Session s;
			s.path = a[1];
			s.dir = a[2];
			string out, was = stamp(a[1]);
			for (auto &op : split(a[3], ',')) {
				string r = s.step(op), now = stamp(a[1]);
				out += string(out.empty() ? "" : ",") + J().str("op", op).str("r", r).boolean("same", now == was).done();
				was = now;
			}
			return J().raw("steps", "[" + out + "]").done();
		}},
	});
}

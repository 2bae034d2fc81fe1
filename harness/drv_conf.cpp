// Configurations of an information base and configuration storages.
//   S db kind out [uid] [ver]         kind: db main cas cassave
//   V db dir                          supplier configurations, extracted into dir/0, dir/1, ...
//   Y kind target op;op...            kind: dir cf table; ops: W,path,tag,len  R,path  E,path  B,path,path  O   (paths in hex)
#include "drv.h"
#include "pattern.h"
#include "Class_1CD.h"
#include "ConfigStorage.h"
#include "SystemClasses/TMemoryStream.hpp"
#include <boost/filesystem.hpp>
#include <memory>
using namespace std;
using namespace System::Classes;

static string body(TStream *s)
{
	string d(s->GetSize(), 0);
	size_t n = d.empty() ? 0 : s->Read(&d[0], d.size());
	d.resize(n);
	return digest(d);
}
int main()
{
	return serve({
		{"S", [](const Args &a) {
			T_1CD db(a[1], nullptr, false);
			bool ok;
			if (a[2] == "db") ok = db.save_config(a[3]);
			else if (a[2] == "main") ok = db.save_configsave(a[3]);
			else if (a[2] == "cas") ok = db.save_config_ext_db(a[3], a[4]);
			else ok = db.save_config_ext(a[3], BinaryGuid(a[4]), a[5]);
			return J().boolean("ok", ok).done();
		}},
		{"V", [](const Args &a) {
			T_1CD db(a[1], nullptr, false);
			string out;
			int n = 0;
			for (auto &c : db.supplier_configs()) {
				bool ok = c->save_to_file(a[2] + "/" + to_string(n++));
				out += (out.empty() ? "" : ",") + J().hex("n", c->name()).hex("s", c->supplier()).hex("v", c->version()).boolean("ok", ok).done();
			}
			return J().raw("l", "[" + out + "]").done();
		}},
		{"Y", [](const Args &a) {
			unique_ptr<T_1CD> db;
			unique_ptr<TableFiles> tf, tf2;
			unique_ptr<ConfigStorage> st;
			auto open = [&] {
				st.reset();
				if (a[1] == "dir") st.reset(new ConfigStorageDirectory(a[2]));
				else if (a[1] == "cf") st.reset(new ConfigStorageCFFile(a[2]));
				else {
					if (!db) db.reset(new T_1CD(a[2], nullptr, false));
					auto tab = [&](const char *n) { for (int i = 0; i < db->get_numtables(); i++) if (db->get_table(i)->get_name() == n) return db->get_table(i); return (Table *)nullptr; };
					tf.reset(new TableFiles(tab("CONFIG")));
					tf2.reset(new TableFiles(tab("CONFIGSAVE")));
					if (a[1] == "table") st.reset(new ConfigStorageTableConfig(tf.get()));
					else st.reset(new ConfigStorageTableConfigSave(tf.get(), tf2.get()));
				}
			};
			open();
			string out;
			for (const string &op : split(a[3], ';')) {
				Args o = split(op, ',');
				string r = guarded([&]() -> string {
					J j;
					if (o[0] == "O") { open(); return j.done(); }
					string p = unhex(o[1]);
					if (o[0] == "W") {
						TMemoryStream ms;
						string d = pattern(atoi(o[2].c_str()), 0, atoi(o[3].c_str()));
						if (!d.empty()) ms.Write(d.data(), d.size());
						ms.Seek(0, soFromBeginning);
						return j.boolean("ok", st->writefile(p, &ms)).done();
					}
					if (o[0] == "E") return j.boolean("ok", st->fileexists(p)).done();
					ConfigFile *f = st->readfile(p);
					if (o[0] == "R") {
						j.boolean("ok", f != nullptr);
						if (f) { j.str("d", body(f->str)); st->close(f); }
						return j.done();
					}
					ConfigFile *g = st->readfile(unhex(o[2]));
					j.boolean("ok", f && g);
					if (f && g) { j.str("d2", body(g->str)); j.str("d", body(f->str)); }
					if (f) st->close(f);
					if (g) { g->str->Seek(0, soFromBeginning); j.str("d3", body(g->str)); st->close(g); }
					return j.done();
				});
				out += (out.empty() ? "" : ",") + r;
			}
			st.reset();
			return J().raw("r", "[" + out + "]").done();
		}},
	});
}

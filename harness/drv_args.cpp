// Command lines: A <hex argument>... gives the commands understood.
#include "drv.h"
#include "dblog.h"
#include "ParseCommandLine.h"
#include <memory>
static const char *name(Command c)
{
	switch (c) {
	case Command::help: return "help"; case Command::no_verbose: return "noverbose"; case Command::quit: return "quit";
	case Command::not_exclusively: return "ne"; case Command::export_all_to_xml: return "eax"; case Command::xml_blob_to_file: return "bf";
	case Command::xml_parse_blob: return "pb"; case Command::save_config: return "ddc"; case Command::save_configsave: return "dc";
	case Command::save_vendors_configs: return "dvc"; case Command::save_all_configs: return "dac"; case Command::export_to_xml: return "ex";
	case Command::save_depot_config: return "drc"; case Command::save_depot_config_part: return "dpc"; case Command::logfile: return "log";
	case Command::export_to_binary: return "eb"; case Command::import_from_binary: return "ib"; case Command::find_and_save_lost_objects: return "slo";
	case Command::save_tables_size: return "sts";
	}
	return "?";
}
int main()
{
	static Log log;
	msreg_g.AddMessageRegistrator(&log);
	return serve({{"A", [](const Args &a) {
		log.items.clear();
		std::vector<std::string> s{"ctool1cd"};
		for (size_t i = 1; i < a.size(); i++) s.push_back(unhex(a[i]));
		std::vector<char *> v;
		for (auto &x : s) v.push_back(&x[0]);
		v.push_back(nullptr);
		CommandParse p(v.data(), s.size());
		std::string r;
		for (auto &c : p.getcommands()) r += std::string(r.empty() ? "" : ",") + "[\"" + name(c.command) + "\"," + jstr(c.param1) + "," + jstr(c.param2) + "]";
		int errors = 0;
		for (auto &i : log.items) errors += i.first == (int)MessageState::Error;
		return J().raw("cmds", "[" + r + "]").str("file", p.getfilename()).num("errors", errors).done();
	}}});
}

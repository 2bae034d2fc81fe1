// Bracketed text: parse from string and from stream, print, parse again.
#include "drv.h"
#include "Parse_tree.h"
#include "SystemClasses/TMemoryStream.hpp"

static std::string jtree(Tree *t)
{
	std::string c;
	int n = 0;
	for (Tree *k = t->get_first(); k; k = k->get_next()) { if (n++) c += ","; c += jtree(k); }
	return "{\"t\":" + std::to_string((int)t->get_type()) + ",\"v\":" + jstr(tohex(t->get_value())) +
	       ",\"n\":" + std::to_string(t->get_num_subnode()) + ",\"c\":[" + c + "]}";
}
static std::string p_text(const std::string &s, Tree **keep = nullptr)
{
	return guarded([&] { auto t = parse_1Ctext(s, "t"); std::string r = jtree(t.get()); if (keep) *keep = t.release(); return r; });
}
static std::string p_stream(const std::string &s)
{
	return guarded([&] {
		TMemoryStream st; if (!s.empty()) st.Write(s.data(), s.size()); st.Seek(0, soFromBeginning);
		auto t = parse_1Cstream(&st, "t"); return jtree(t.get()); });
}
int main()
{
	return serve({{"P", [](const Args &a) {
		std::string s = unhex(a[1]);
		Tree *t = nullptr;
		J j;
		j.raw("text", p_text(s, &t));
		j.raw("stream", p_stream(s));
		j.raw("marked", p_stream("\xef\xbb\xbf" + s));    // a byte order mark is no part of the text
		if (t) {
			std::string full, one;
			t->outtext(full);
			j.hex("full", full);
			j.raw("refull", p_text(full));
			one = outtext(t);
			j.hex("one", one);
			j.raw("reone", p_text(one));
		}
		delete t;
		return j.done();
	}}});
}
